"""Uniform access to deepwave's four propagators, mirroring vlib.ref."""

import itertools
import math

import torch

from vlib import ref as R

F64 = torch.float64
IGNORE = -(1 << 31)
DT = {"double": torch.float64, "float": torch.float32}


def dense(shape, salt=0.0, lo=-0.5, hi=0.5):
    """Deterministic, irregular values in [lo, hi)."""
    n = int(math.prod(shape))
    k = torch.arange(1, n + 1, dtype=F64)
    x = torch.frac(k * 0.6180339887498949 + salt * 0.7548776662466927 + torch.frac(k * k * 0.0137) * 0.31)
    return (lo + (hi - lo) * x).reshape(shape)


class Cfg:
    """One propagator configuration (JSON-serialisable through .d)."""

    def __init__(self, d):
        self.d = d
        self.pde = d["pde"]
        self.inner = tuple(d["n"])
        self.ndim = len(self.inner)
        self.acc = d.get("acc", 2)
        self.pml = tuple(d.get("pml", [0] * (2 * self.ndim)))
        self.dtype = DT[d.get("dtype", "double")]
        self.h = tuple(d.get("h", [1.0, 1.25, 0.8][: self.ndim] if self.ndim < 3 else [1.1, 1.25, 0.8]))
        self.max_vel = d.get("max_vel", 2.0)
        self.pml_freq = d.get("pml_freq", 0.3)
        self.n = tuple(self.inner[i] + self.pml[2 * i] + self.pml[2 * i + 1] for i in range(self.ndim))
        cfl = 0.6 / math.sqrt(sum(1 / x**2 for x in self.h)) / self.max_vel
        self.dt = d.get("dt", 0.9 * cfl)
        self.tol = 1e-9 if self.dtype == F64 else 3e-4

    def ref(self, dt=None):
        return R.Ref(self.pde, self.inner, self.h, self.dt if dt is None else dt, self.acc, self.pml,
                     self.pml_freq, self.max_vel)

    def names(self):
        return R.field_names(self.pde, self.ndim)

    def models(self, salt=0.0, batch=None, zeros=False):
        """Irregular admissible models (float64 values exact in the dtype)."""
        sh = self.inner if batch is None else (batch, *self.inner)
        q = lambda x: x.to(self.dtype).to(F64)  # noqa: E731
        if self.pde == "scalar":
            m = {"v": dense(sh, salt, 1.2, 1.95)}
        elif self.pde == "scalar_born":
            m = {"v": dense(sh, salt, 1.2, 1.95), "scatter": dense(sh, salt + 3, -0.4, 0.4)}
        elif self.pde == "acoustic":
            m = {"v": dense(sh, salt, 1.2, 1.95), "rho": dense(sh, salt + 5, 0.7, 1.6)}
        else:
            # vp^2 = (lamb+2mu)*buoyancy <= 4
            m = {"lamb": dense(sh, salt, 0.3, 0.9), "mu": dense(sh, salt + 5, 0.3, 0.7),
                 "buoyancy": dense(sh, salt + 7, 0.8, 1.6)}
        if zeros:
            for k, v in m.items():
                if k != "scatter":
                    v.reshape(-1)[::5] = 0
        return {k: q(v) for k, v in m.items()}

    def skinds(self):
        return R.source_kinds(self.pde, self.ndim)

    def rkinds(self):
        return R.receiver_kinds(self.pde, self.ndim)

    def all_locs(self, kind, limit=None):
        """Every admissible location of the given kind, [L, ndim]."""
        hi = list(self.inner)
        if kind in ("z", "y", "x"):
            hi[R.comps(self.ndim).index(kind)] -= 1
        loc = torch.tensor(list(itertools.product(*[range(x) for x in hi])), dtype=torch.long)
        return loc.reshape(-1, self.ndim)


def func(pde):
    import deepwave

    return {"scalar": deepwave.scalar, "scalar_born": deepwave.scalar_born,
            "acoustic": deepwave.acoustic, "elastic": deepwave.elastic}[pde]


def kwargs_for(cfg, models, nt=None, amps=None, slocs=None, rlocs=None, init=None):
    """Arguments for the functional interface; tensors converted to cfg.dtype."""
    c = lambda x: None if x is None else x.to(cfg.dtype)  # noqa: E731
    kw = {k: c(v) for k, v in models.items()}
    kw.update(grid_spacing=list(cfg.h), dt=cfg.dt, accuracy=cfg.acc, pml_width=list(cfg.pml),
              pml_freq=cfg.pml_freq, max_vel=cfg.max_vel)
    for k, a in (amps or {}).items():
        if a is not None:
            kw["source_amplitudes" + ("_" + k if k else "")] = c(a)
    for k, x in (slocs or {}).items():
        if x is not None:
            kw["source_locations" + ("_" + k if k else "")] = x
    for k, x in (rlocs or {}).items():
        if x is not None:
            name = {"": "receiver_locations", "bg": "bg_receiver_locations"}.get(k, "receiver_locations_" + k)
            kw[name] = x
    for k, x in (init or {}).items():
        if x is not None:
            kw[k] = c(x)
    if nt is not None and not any(a is not None for a in (amps or {}).values()):
        kw["nt"] = nt
    return kw


def unpack(cfg, out):
    names, kinds = cfg.names(), cfg.rkinds()
    assert len(out) == len(names) + len(kinds), (len(out), len(names), len(kinds))
    return dict(zip(names, out)), dict(zip(kinds, out[len(names):]))


def call(cfg, models, nt=None, amps=None, slocs=None, rlocs=None, init=None, **extra):
    kw = kwargs_for(cfg, models, nt, amps, slocs, rlocs, init)
    kw.update(extra)
    return unpack(cfg, func(cfg.pde)(**kw))
