"""Reference model of deepwave's discrete wave equations.

Written from the documentation (scalar.rst, scalar_born.rst, acoustic.rst,
elastic.rst) with dense one-dimensional operators; shares no code with
deepwave.  All computation is float64 torch, so that autograd on the model
serves as the oracle for gradients.

Fields live on the domain including the boundary layers (no stencil padding);
everything outside the domain is zero.  State tensors are [shot, *dims].
"""

import math
from fractions import Fraction
from functools import lru_cache

import torch

F64 = torch.float64
DIMS = "zyx"


# ---------------------------------------------------------------- stencils
def _solve(points, order):
    """Finite-difference weights at 0 for the given derivative order."""
    n = len(points)
    a = [[Fraction(p) ** k for p in points] for k in range(n)]
    b = [Fraction(math.factorial(order)) if k == order else Fraction(0) for k in range(n)]
    for i in range(n):
        piv = next(r for r in range(i, n) if a[r][i] != 0)
        a[i], a[piv] = a[piv], a[i]
        b[i], b[piv] = b[piv], b[i]
        f = a[i][i]
        a[i] = [x / f for x in a[i]]
        b[i] /= f
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
                b[r] -= f * b[i]
    return b


@lru_cache(None)
def weights_centred(acc, order):
    pts = list(range(-acc // 2, acc // 2 + 1))
    return list(zip(pts, [float(w) for w in _solve(pts, order)]))


@lru_cache(None)
def weights_staggered(acc):
    pts = [Fraction(2 * k + 1, 2) for k in range(-acc // 2, acc // 2)]
    return list(zip(pts, [float(w) for w in _solve(pts, 1)]))


@lru_cache(None)
def d_centred(n, h, acc, order):
    m = torch.zeros(n, n, dtype=F64)
    for i in range(n):
        for p, w in weights_centred(acc, order):
            if 0 <= i + p < n:
                m[i, i + p] = w / h**order
    return m


@lru_cache(None)
def d_to_half(n, h, acc):
    """Derivative of an integer-point field at the half points 0..n-2."""
    m = torch.zeros(n, n, dtype=F64)
    for i in range(n - 1):
        for p, w in weights_staggered(acc):
            j = i + int(p + Fraction(1, 2))
            if 0 <= j < n:
                m[i, j] = w / h
    return m


@lru_cache(None)
def d_to_int(n, h, acc):
    """Derivative of a half-point field (points 0..n-2) at integer points."""
    m = torch.zeros(n, n, dtype=F64)
    for i in range(n):
        for p, w in weights_staggered(acc):
            j = i + int(p - Fraction(1, 2))
            if 0 <= j < n - 1:
                m[i, j] = w / h
    return m


def ap(m, u, d):
    """Applies matrix m along spatial dimension d of u ([shot, *dims])."""
    return torch.movedim(torch.movedim(u, d + 1, -1) @ m.T, -1, d + 1)


# ---------------------------------------------------------------- layers
def profile(n, w0, w1, max_len, max_vel, freq, dt, half=False, pad=0):
    """C-PML recursive coefficients at domain points (-pad .. n-1+pad)."""
    a, b = [], []
    for i in range(-pad, n + pad):
        x = i + (0.5 if half else 0.0)
        f = 0.0
        if w0:
            f = max(f, (w0 - x) / w0)
        if w1:
            f = max(f, (x - (n - 1 - w1)) / w1)
        f = min(f, 1.0)
        if f <= 0 or max_len == 0:
            a.append(0.0)
            b.append(0.0)
            continue
        sigma = 3 * max_vel * math.log(1000.0) / (2 * max_len) * f * f
        alpha = math.pi * freq * (1 - f)
        e = math.exp(-(sigma + alpha) * abs(dt))
        a.append(e)
        b.append(sigma / (sigma + alpha) * (e - 1))
    return torch.tensor(a, dtype=F64), torch.tensor(b, dtype=F64)


# ---------------------------------------------------------------- names
def comps(ndim):
    return DIMS[3 - ndim:]


def field_names(pde, ndim):
    c = comps(ndim)
    if pde == "scalar":
        return ["wavefield_0", "wavefield_m1"] + [f"psi{k}_m1" for k in c] + [f"zeta{k}_m1" for k in c]
    if pde == "scalar_born":
        return field_names("scalar", ndim) + ["wavefield_sc_0", "wavefield_sc_m1"] + [
            f"psi{k}_sc_m1" for k in c] + [f"zeta{k}_sc_m1" for k in c]
    if pde == "acoustic":
        return ["pressure_0"] + [f"v{k}_0" for k in c] + [f"phi_{k}_0" for k in c] + [f"psi_{k}_0" for k in c]
    vs = [f"v{k}" for k in c]
    sig = [f"sigma{s}" for s in ("zz", "yz", "xz", "yy", "xy", "xx")]
    mv = [f"m_v{s}" for s in ("zz", "zy", "zx", "yz", "xz", "yy", "yx", "xy", "xx")]
    ms = [f"m_sigma{s}" for s in ("zzz", "yzy", "xzx", "yzz", "xzz", "yyy", "xyy", "xyx", "xxx")]
    keep = lambda s, k: all(ch in c for ch in s[k:])  # noqa: E731
    return ([v + "_0" for v in vs] + [s + "_0" for s in sig if keep(s, 5)]
            + [s + "_0" for s in mv if keep(s, 3)] + [s + "_0" for s in ms if keep(s, 7)])


def model_names(pde):
    return {"scalar": ["v"], "scalar_born": ["v", "scatter"], "acoustic": ["v", "rho"],
            "elastic": ["lamb", "mu", "buoyancy"]}[pde]


def source_kinds(pde, ndim):
    return [""] if pde in ("scalar", "scalar_born") else ["p"] + list(comps(ndim))


def receiver_kinds(pde, ndim):
    """In output order."""
    if pde == "scalar":
        return [""]
    if pde == "scalar_born":
        return ["bg", ""]
    return ["p"] + list(comps(ndim))


def half_dims(pde, ndim, name):
    """Dimensions (indices) in which the field sits at half points."""
    c = comps(ndim)
    if pde in ("scalar", "scalar_born"):
        return ()
    if pde == "acoustic":
        if name.startswith("v"):
            return (c.index(name[1]),)
        if name.startswith("psi_"):
            return (c.index(name[4]),)
        return ()
    s = name[:-2]
    if s.startswith("v"):
        comp = s[1]
        return (c.index(comp),)
    if s.startswith("sigma") or s.startswith("m_v"):
        i, j = s[-2:]
        return () if i == j else tuple(sorted((c.index(i), c.index(j))))
    # m_sigma i j k : memory of d_k sigma_ij, located at velocity of the other index
    i, j, k = s[-3:]
    other = j if i == k else i
    return (c.index(other),)


def memory_dim(pde, ndim, name):
    """Dimension whose boundary layer a memory field belongs to, or None."""
    c = comps(ndim)
    if pde in ("scalar", "scalar_born"):
        if name.startswith("psi"):
            return c.index(name[3])
        if name.startswith("zeta"):
            return c.index(name[4])
        return None
    if pde == "acoustic":
        if name.startswith(("phi_", "psi_")):
            return c.index(name[4])
        return None
    if name.startswith("m_"):
        return c.index(name[-3])
    return None


# ---------------------------------------------------------------- propagator
class Ref:
    def __init__(self, pde, inner, spacing, dt, acc, pml, pml_freq, max_vel):
        self.pde, self.ndim = pde, len(inner)
        self.c = comps(self.ndim)
        self.inner = tuple(inner)
        self.h = tuple(float(x) for x in spacing)
        self.dt, self.acc, self.pml = float(dt), acc, tuple(pml)
        self.n = tuple(inner[d] + pml[2 * d] + pml[2 * d + 1] for d in range(self.ndim))
        self.names = field_names(pde, self.ndim)
        ml = max(pml[k] * self.h[k // 2] for k in range(2 * self.ndim))
        R = acc // 2

        def prof(half):
            out = []
            for d in range(self.ndim):
                a, b = profile(self.n[d], pml[2 * d], pml[2 * d + 1], ml, max_vel, pml_freq, dt, half)
                if half:  # the last half point is outside the domain
                    a[-1] = 0
                    b[-1] = 0
                sh = [1] * (self.ndim + 1)
                sh[d + 1] = self.n[d]
                out.append((a.view(sh), b.view(sh)))
            return out

        self.ab = prof(False)
        self.abh = prof(True)
        if pde in ("scalar", "scalar_born"):
            self.db = []
            for d in range(self.ndim):
                _, b = profile(self.n[d], pml[2 * d], pml[2 * d + 1], ml, max_vel, pml_freq, dt, pad=R)
                v = torch.zeros(self.n[d], dtype=F64)
                for i in range(self.n[d]):
                    for p, w in weights_centred(acc, 1):
                        v[i] += w / self.h[d] * b[i + R + p]
                sh = [1] * (self.ndim + 1)
                sh[d + 1] = self.n[d]
                self.db.append(v.view(sh))
            self.D1 = [d_centred(self.n[d], self.h[d], acc, 1) for d in range(self.ndim)]
            self.D2 = [d_centred(self.n[d], self.h[d], acc, 2) for d in range(self.ndim)]
        else:
            self.Dh = [d_to_half(self.n[d], self.h[d], acc) for d in range(self.ndim)]
            self.Di = [d_to_int(self.n[d], self.h[d], acc) for d in range(self.ndim)]

    # -- models
    def pad_model(self, m, mode="replicate"):
        """[S or 1, *inner] or [*inner] -> [S or 1, *n], differentiable."""
        if m.ndim == self.ndim:
            m = m[None]
        for d in range(self.ndim):
            P = torch.zeros(self.n[d], self.inner[d], dtype=F64)
            for i in range(self.n[d]):
                j = i - self.pml[2 * d]
                if mode == "replicate":
                    j = min(max(j, 0), self.inner[d] - 1)
                if 0 <= j < self.inner[d]:
                    P[i, j] = 1
            m = ap(P, m, d)
        return m

    def shift_avg(self, m, d):
        """Mean of neighbouring cells in dim d, at half points; last one zero."""
        A = torch.zeros(self.n[d], self.n[d], dtype=F64)
        for i in range(self.n[d] - 1):
            A[i, i] = A[i, i + 1] = 0.5
        return ap(A, m, d)

    @staticmethod
    def inv(m):
        ok = m.abs() > 1e-150
        return torch.where(ok, 1 / torch.where(ok, m, torch.ones_like(m)), torch.zeros_like(m))

    def prepare(self, models):
        """Padded models -> dictionary of effective coefficients."""
        if self.pde == "scalar":
            return {"v": self.pad_model(models["v"])}
        if self.pde == "scalar_born":
            return {"v": self.pad_model(models["v"]), "scatter": self.pad_model(models["scatter"], "zero")}
        if self.pde == "acoustic":
            v, rho = self.pad_model(models["v"]), self.pad_model(models["rho"])
            out = {"K": rho * v**2}
            for d in range(self.ndim):
                out["B" + self.c[d]] = self.inv(self.shift_avg(rho, d))
            return out
        lamb, mu, buo = (self.pad_model(models[k]) for k in ("lamb", "mu", "buoyancy"))
        out = {"lamb": lamb, "mu": mu}
        rho = self.inv(buo)
        for d in range(self.ndim):
            out["B" + self.c[d]] = self.inv(self.shift_avg(rho, d))
        zero = (mu.abs() <= 1e-150).to(F64)
        imu = self.inv(mu)
        for i in range(self.ndim):
            for j in range(i + 1, self.ndim):
                z = self.shift_avg(self.shift_avg(zero, i), j)
                m = self.inv(self.shift_avg(self.shift_avg(imu, i), j))
                out["mu_" + self.c[i] + self.c[j]] = torch.where(z > 0, torch.zeros_like(m), m)
        return out

    # -- state
    def zeros(self, S):
        return {k: torch.zeros(S, *self.n, dtype=F64) for k in self.names}

    def mask(self, name):
        """1 where the named field may be non-zero."""
        m = torch.ones(self.n, dtype=F64)
        hd = half_dims(self.pde, self.ndim, name)
        for d in hd:
            m.narrow(d, self.n[d] - 1, 1).zero_()
        d = memory_dim(self.pde, self.ndim, name)
        if d is not None:
            if self.pde in ("scalar", "scalar_born"):
                a = self.ab[d][0]
            else:
                a = (self.abh if d in hd else self.ab)[d][0]
            m = m * (a.view(a.shape[1:]) != 0)
        return m

    def flat(self, loc):
        """[..., ndim] inner coordinates -> flat index in padded domain."""
        idx = torch.zeros(loc.shape[:-1], dtype=torch.long)
        for d in range(self.ndim):
            idx = idx * self.n[d] + loc[..., d] + self.pml[2 * d]
        return idx

    def inject(self, u, loc, amp, ignore):
        m = (loc != ignore).all(-1)
        idx = torch.where(m, self.flat(loc), torch.zeros((), dtype=torch.long))
        a = torch.where(m, amp, torch.zeros((), dtype=F64))
        return u.reshape(u.shape[0], -1).scatter_add(1, idx, a).view(u.shape)

    def gather(self, u, loc, ignore):
        m = (loc != ignore).all(-1)
        idx = torch.where(m, self.flat(loc), torch.zeros((), dtype=torch.long))
        g = u.expand(loc.shape[0], *self.n).reshape(loc.shape[0], -1).gather(1, idx)
        return torch.where(m, g, torch.zeros((), dtype=F64))

    # -- single steps (without sources)
    def _lap(self, u, psi, zeta):
        w, npsi, nzeta = 0, [], []
        for d in range(self.ndim):
            a, b = self.ab[d]
            du = ap(self.D1[d], u, d)
            tmp = (1 + b) * ap(self.D2[d], u, d) + self.db[d] * du + ap(self.D1[d], a * psi[d], d)
            w = w + (1 + b) * tmp + a * zeta[d]
            npsi.append(b * du + a * psi[d])
            nzeta.append(b * tmp + a * zeta[d])
        return w, npsi, nzeta

    def step(self, s, m):
        """One time step without sources; returns the new state."""
        return getattr(self, "_step_" + self.pde)(s, m)

    def _step_scalar(self, s, m):
        c = self.c
        w, psi, zeta = self._lap(s["wavefield_0"], [s[f"psi{k}_m1"] for k in c], [s[f"zeta{k}_m1"] for k in c])
        o = {"wavefield_0": m["v"] ** 2 * self.dt**2 * w + 2 * s["wavefield_0"] - s["wavefield_m1"],
             "wavefield_m1": s["wavefield_0"]}
        for d, k in enumerate(c):
            o[f"psi{k}_m1"], o[f"zeta{k}_m1"] = psi[d], zeta[d]
        return o

    def _step_scalar_born(self, s, m):
        c = self.c
        o = self._step_scalar(s, m)
        w, _, _ = self._lap(s["wavefield_0"], [s[f"psi{k}_m1"] for k in c], [s[f"zeta{k}_m1"] for k in c])
        ws, psi, zeta = self._lap(s["wavefield_sc_0"], [s[f"psi{k}_sc_m1"] for k in c],
                                  [s[f"zeta{k}_sc_m1"] for k in c])
        o["wavefield_sc_0"] = (m["v"] ** 2 * self.dt**2 * ws + 2 * s["wavefield_sc_0"] - s["wavefield_sc_m1"]
                               + 2 * m["v"] * m["scatter"] * self.dt**2 * w)
        o["wavefield_sc_m1"] = s["wavefield_sc_0"]
        for d, k in enumerate(c):
            o[f"psi{k}_sc_m1"], o[f"zeta{k}_sc_m1"] = psi[d], zeta[d]
        return {k: o[k] for k in self.names}

    def velocity_acoustic(self, s, m):
        o = dict(s)
        for d, k in enumerate(self.c):
            a, b = self.abh[d]
            g = ap(self.Dh[d], s["pressure_0"], d)
            psi = a * s[f"psi_{k}_0"] + b * g
            o[f"psi_{k}_0"] = psi
            o[f"v{k}_0"] = s[f"v{k}_0"] - self.dt * m["B" + k] * (g + psi)
        return o

    def stress_acoustic(self, s, m):
        o = dict(s)
        div = 0
        for d, k in enumerate(self.c):
            a, b = self.ab[d]
            g = ap(self.Di[d], s[f"v{k}_0"], d)
            phi = a * s[f"phi_{k}_0"] + b * g
            o[f"phi_{k}_0"] = phi
            div = div + g + phi
        o["pressure_0"] = s["pressure_0"] - self.dt * m["K"] * div
        return o

    @staticmethod
    def _sig(i, j):
        order = "xyz"
        return "sigma" + "".join(sorted((i, j), key=order.index))

    def velocity_elastic(self, s, m):
        o = dict(s)
        c = self.c
        for d, i in enumerate(c):
            acc = 0
            for e, j in enumerate(c):
                sig = self._sig(i, j)
                if i == j:
                    a, b = self.abh[e]
                    g = ap(self.Dh[e], s[sig + "_0"], e)
                else:
                    a, b = self.ab[e]
                    g = ap(self.Di[e], s[sig + "_0"], e)
                nm = f"m_{sig}{j}_0"
                mem = a * s[nm] + b * g
                o[nm] = mem
                acc = acc + g + mem
            o[f"v{i}_0"] = s[f"v{i}_0"] + self.dt * m["B" + i] * acc
        return o

    def stress_elastic(self, s, m):
        o = dict(s)
        c = self.c
        nd = {}
        for e, j in enumerate(c):
            a, b = self.ab[e]
            g = ap(self.Di[e], s[f"v{j}_0"], e)
            mem = a * s[f"m_v{j}{j}_0"] + b * g
            o[f"m_v{j}{j}_0"] = mem
            nd[j] = g + mem
        div = sum(nd.values())
        for i in c:
            o[f"sigma{i}{i}_0"] = s[f"sigma{i}{i}_0"] + self.dt * (m["lamb"] * div + 2 * m["mu"] * nd[i])
        for p in range(len(c)):
            for q in range(p + 1, len(c)):
                tot = 0
                for (vi, dj) in ((p, q), (q, p)):
                    a, b = self.abh[dj]
                    g = ap(self.Dh[dj], s[f"v{c[vi]}_0"], dj)
                    nm = f"m_v{c[vi]}{c[dj]}_0"
                    mem = a * s[nm] + b * g
                    o[nm] = mem
                    tot = tot + g + mem
                sig = self._sig(c[p], c[q]) + "_0"
                o[sig] = s[sig] + self.dt * m["mu_" + c[p] + c[q]] * tot
        return o

    def _step_acoustic(self, s, m):
        return self.stress_acoustic(self.velocity_acoustic(s, m), m)

    def _step_elastic(self, s, m):
        return self.stress_elastic(self.velocity_elastic(s, m), m)

    # -- recording and full step with sources
    def record(self, s, kind, loc, ignore):
        if self.pde == "scalar":
            u = s["wavefield_0"]
        elif self.pde == "scalar_born":
            u = s["wavefield_0"] if kind == "bg" else s["wavefield_sc_0"]
        elif kind == "p":
            if self.pde == "acoustic":
                u = s["pressure_0"]
            else:
                u = -sum(s[f"sigma{k}{k}_0"] for k in self.c) / self.ndim
        else:
            u = s[f"v{kind}_0"]
        return self.gather(u, loc, ignore)

    def full_step(self, s, m, msrc, amps, locs, ignore):
        """amps: kind -> [S, ns] samples.  msrc: models used to scale sources."""
        dt = self.dt
        sc = lambda name, k: self.gather(msrc[name], locs[k], ignore)  # noqa: E731
        if self.pde in ("scalar", "scalar_born"):
            o = self.step(s, m)
            if amps.get("") is not None:
                v = sc("v", "")
                o["wavefield_0"] = self.inject(o["wavefield_0"], locs[""], -v**2 * dt**2 * amps[""], ignore)
                if self.pde == "scalar_born":
                    o["wavefield_sc_0"] = self.inject(
                        o["wavefield_sc_0"], locs[""], -2 * v * sc("scatter", "") * dt**2 * amps[""], ignore)
            return o
        o = getattr(self, "velocity_" + self.pde)(s, m)
        for k in self.c:
            if amps.get(k) is not None:
                o[f"v{k}_0"] = self.inject(o[f"v{k}_0"], locs[k], dt * sc("B" + k, k) * amps[k], ignore)
        o = getattr(self, "stress_" + self.pde)(o, m)
        if amps.get("p") is not None:
            if self.pde == "acoustic":
                o["pressure_0"] = self.inject(o["pressure_0"], locs["p"], dt * sc("K", "p") * amps["p"], ignore)
            else:
                for k in self.c:
                    nm = f"sigma{k}{k}_0"
                    o[nm] = self.inject(o[nm], locs["p"], -dt * amps["p"], ignore)
        return o

    def run(self, models, nt, S, amps=None, slocs=None, rlocs=None, init=None, interval=1, ignore=1 << 31,
            hook=None):
        """Returns (final state, {kind: [S, nr, nt]}).

        models: user models; amps[kind]: [S, ns, nt]; init[name]: [S, *n].
        interval: model-gradient sampling interval (changes gradients only).
        hook(t, state, models): may modify and return the state before step t.
        """
        amps, slocs, rlocs, init = amps or {}, slocs or {}, rlocs or {}, init or {}
        m = self.prepare(models)
        s = self.zeros(S)
        for k, v in init.items():
            s[k] = s[k] + v * self.mask(k)
        rec = {k: [] for k in rlocs}
        for t in range(nt):
            if hook is not None:
                s = hook(t, s, m)
            for k in rlocs:
                rec[k].append(self.record(s, k, rlocs[k], ignore))
            if interval == 1:
                mt = m
            elif t % interval == 0:
                mt = {k: v.detach() + interval * (v - v.detach()) for k, v in m.items()}
            else:
                mt = {k: v.detach() for k, v in m.items()}
            s = self.full_step(s, mt, m, {k: a[..., t] for k, a in amps.items()}, slocs, ignore)
        return s, {k: (torch.stack(v, -1) if v else torch.zeros(S, rlocs[k].shape[1], 0, dtype=F64))
                   for k, v in rec.items()}
