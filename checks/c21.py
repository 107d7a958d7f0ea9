"""C21: the symmetry group of the grid acting on the real propagators: every axis
permutation and every mirror subset, on every basis state, plus reduction to lower
dimensions along every axis."""
import itertools
import re

import torch

from vlib import compose
from vlib import grad as G
from vlib import ref as R
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct digests of (transformation, outputs)"
BOUNDS = {
    "quick": "group: all 2^d mirrors x all d! axis permutations (1-D 2, 2-D 8, 3-D 48 elements) x 4 propagators x "
             "accuracies x 2 layer patterns; every basis state of every field for the generators, dense states, "
             "sources, recordings and gradients for all elements; reduction 2-D->1-D and 3-D->2-D along every axis",
    "thorough": "as quick with basis states for all elements, more layer patterns, longer runs",
}
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ACCS = (2, 4, 6, 8)
COMBINED = compose.plan(compose.symmetry, quick=dict(t=2, salt=4))


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, nd, acc in itertools.product(PDES, (1, 2, 3), ACCS):
        R_ = acc // 2
        pats = [[0] * (2 * nd), [2, 1, 0, 3, 1, 2][: 2 * nd]]
        if th:
            pats += [[0, 2, 3, 0, 0, 1][: 2 * nd], [1, 1, 1, 1, 1, 1][: 2 * nd]]
        for p in pats:
            out.append(dict(kind="dense", pde=pde, acc=acc, n=[3, 5, 4][:nd], pml=p, nt=5 if nd < 3 else 3))
            out.append(dict(kind="dense", pde=pde, acc=acc, n=[2 * R_ + 3, 2 * R_ + 4, R_ + 4][:nd], pml=p,
                            nt=5 if nd < 3 else 3))
            out.append(dict(kind="basis", pde=pde, acc=acc, n=[3, 4, 2][:nd], pml=[min(x, 1) for x in p], nt=2 if nd < 3 else 1,
                            all=th))
        if nd > 1:
            for ax in range(nd):
                out.append(dict(kind="reduce", pde=pde, acc=acc, nd=nd, ax=ax, nt=3 if nd == 2 else 2))
    return out


def elements(nd):
    for perm in itertools.permutations(range(nd)):
        for k in range(nd + 1):
            for mir in itertools.combinations(range(nd), k):
                yield perm, mir


def letters(pde, name):
    """The component/derivative letters of a field name."""
    s = name
    for x in ("_0", "_m1", "_sc"):
        s = s.replace(x, "")
    s = re.sub("^(wavefield|pressure|psi_?|phi_?|zeta|sigma|m_v|m_sigma|v)", "", s) if not s.startswith("m_") else \
        re.sub("^(m_sigma|m_v)", "", s)
    return s


def parity_letters(pde, name):
    s = name
    if s.startswith(("zeta", "phi_", "wavefield", "pressure")):
        return ""
    return letters(pde, s)


def perm_name(pde, nd, name, perm):
    """Field name in the permuted world (new axis i is old axis perm[i])."""
    c = R.comps(nd)
    ls = letters(pde, name)
    if not ls:
        return name
    new = {c[perm[i]]: c[i] for i in range(nd)}
    t = [new[x] for x in ls]
    if "sigma" in name:
        t[:2] = sorted(t[:2])
    i = name.index(ls, 1 if not name.startswith(("psi", "phi", "zeta", "m_", "sigma", "v")) else
                   {"p": 3, "z": 4, "m": 3, "s": 5, "v": 1}[name[0]])
    return name[:i] + "".join(t) + name[i + len(ls):]


def flip_field(u, axes, half):
    """Mirror of a [S,*n] tensor along axes; half: axes at half points."""
    for d in axes:
        if d in half:
            n = u.shape[d + 1]
            body = u.narrow(d + 1, 0, n - 1).flip(d + 1)
            u = torch.cat([body, u.narrow(d + 1, n - 1, 1) * 0], d + 1)
        else:
            u = u.flip(d + 1)
    return u


class Sym:
    """First mirror along `mir` (old axes), then permute axes."""

    def __init__(self, cfg, perm, mir):
        self.c, self.perm, self.mir = cfg, perm, mir
        d = dict(cfg.d)
        p = list(cfg.pml)
        for k in mir:
            p[2 * k], p[2 * k + 1] = p[2 * k + 1], p[2 * k]
        d["n"] = [cfg.inner[i] for i in perm]
        d["h"] = [cfg.h[i] for i in perm]
        d["pml"] = [p[2 * i + j] for i in perm for j in (0, 1)]
        d["dt"] = cfg.dt
        self.new = Cfg(d)
        self.comp = R.comps(cfg.ndim)

    def name(self, k):
        return perm_name(self.c.pde, self.c.ndim, k, self.perm)

    def sign(self, k):
        s = parity_letters(self.c.pde, k)
        return (-1) ** sum(s.count(self.comp[d]) for d in self.mir)

    def field(self, k, u):
        half = R.half_dims(self.c.pde, self.c.ndim, k)
        u = flip_field(u, self.mir, half) * self.sign(k)
        return u.permute(0, *[i + 1 for i in self.perm]).contiguous()

    def model(self, m):
        m = flip_field(m[None], self.mir, ())[0]
        return m.permute(*self.perm).contiguous()

    def kind(self, k):
        return k if k in ("", "p", "bg") else self.comp[self.perm.index(self.comp.index(k))]

    def ksign(self, k):
        return -1 if k in self.comp and k and self.comp.index(k) in self.mir else 1

    def loc(self, k, loc):
        loc = loc.clone()
        for d in self.mir:
            top = self.c.inner[d] - 1 - (1 if k and k in self.comp and self.comp.index(k) == d else 0)
            loc[..., d] = top - loc[..., d]
        return loc[..., list(self.perm)].contiguous()


def run(t, r, tier, seed):
    if t["kind"] == "reduce":
        return reduce(t, r)
    cfg = Cfg(t)
    nt = t["nt"]
    gens = {(tuple(range(cfg.ndim)), (d,)) for d in range(cfg.ndim)} | {
        (p, ()) for p in itertools.permutations(range(cfg.ndim))}
    names = cfg.names()
    if t["kind"] == "basis":
        m = cfg.models()
        N = G.math.prod(cfg.n)
        eye = torch.eye(N, dtype=F64).view(N, *cfg.n)
        rl = {k: x[None].expand(N, -1, -1) for k, x in ((k, cfg.all_locs(k)) for k in cfg.rkinds()) if len(x)}
        for name in names:
            # basis states on cells where a half-point field exists
            half = R.half_dims(cfg.pde, cfg.ndim, name)
            e = flip_field(flip_field(eye, half, half), half, half)
            f0, rec0 = call(cfg, m, nt, None, None, rl, {name: e})
            for perm, mir in elements(cfg.ndim):
                if not t["all"] and (perm, mir) not in gens:
                    continue
                s = Sym(cfg, perm, mir)
                f, rec = call(s.new, {k: s.model(v) for k, v in m.items()}, nt, None, None,
                              {s.kind(k): s.loc(k, v) for k, v in rl.items()}, {s.name(name): s.field(name, e)})
                check(r, s, f0, rec0, f, rec, f"basis of {name}", rl)
                r.states += N
                r.traces += N
                r.transitions += 2 * N * nt
                r.evaluations += 1
                r.outcome([cfg.d, perm, mir, name])
    else:
        S = 2
        m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=5)
        for k in ini:  # half-point fields have no value past the last half point
            half = R.half_dims(cfg.pde, cfg.ndim, k)
            ini[k] = flip_field(flip_field(ini[k], half, half), half, half)
        cot = G.cot_dense(G.out_layout(cfg, rl, nt), S, 5)
        o0, g0 = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot)
        f0 = {k: v for (q, k), v in o0.items() if q == "field"}
        rec0 = {k: v for (q, k), v in o0.items() if q == "rec"}
        for perm, mir in elements(cfg.ndim):
            s = Sym(cfg, perm, mir)
            cot2 = {}
            for (q, k), c in cot.items():
                cot2[q, s.name(k) if q == "field" else s.kind(k)] = s.field(k, c) if q == "field" else c * s.ksign(k)
            o, g = G.impl(s.new, {k: s.model(v) for k, v in m.items()}, nt,
                          {s.kind(k): a * s.ksign(k) for k, a in amps.items()},
                          {s.kind(k): s.loc(k, x) for k, x in slocs.items()},
                          {s.kind(k): s.loc(k, x) for k, x in rl.items()},
                          {s.name(k): s.field(k, u) for k, u in ini.items()}, cot2)
            check(r, s, f0, rec0, {k: v for (q, k), v in o.items() if q == "field"},
                  {k: v for (q, k), v in o.items() if q == "rec"}, "dense state", rl)
            for (q, k), w in g0.items():
                if w is None:
                    continue
                if q == "model":
                    r.close(f"grad:{k}", g[q, k], s.model(w), cfg.tol, f"gradient of {k} under {perm} {mir}", cfg=cfg.d)
                elif q == "amp":
                    r.close(f"grad:source", g[q, s.kind(k)], w * s.ksign(k), cfg.tol,
                            f"gradient of source {k} under {perm} {mir}", cfg=cfg.d)
                else:
                    r.close(f"grad:{k}", g[q, s.name(k)], s.field(k, w), cfg.tol,
                            f"gradient of {k} under {perm} {mir}", cfg=cfg.d)
            r.states += S
            r.traces += S
            r.transitions += 4 * S * nt
            r.evaluations += 1
            r.outcome([cfg.d, perm, mir] + [round(float(x.norm()), 9) for x in o.values()])
    r.sample = {"cfg": cfg.d, "transformed": s.new.d, "element": [perm, mir]}


def check(r, s, f0, rec0, f, rec, what, rl):
    for k, u in f0.items():
        r.close(f"field:{k}", f[s.name(k)], s.field(k, u), s.c.tol, f"{what}: {k} under axes {s.perm} mirrors {s.mir}",
                cfg=s.c.d)
    for k in rl:
        r.close(f"rec:{k}", rec[s.kind(k)], rec0[k] * s.ksign(k), s.c.tol,
                f"{what}: recordings {k} under axes {s.perm} mirrors {s.mir}", cfg=s.c.d)


def reduce(t, r):
    """Uniform along one axis: the cells further than the domain of influence from
    that axis' ends behave as the lower-dimensional propagation."""
    nd, ax, nt, acc, pde = t["nd"], t["ax"], t["nt"], t["acc"], t["pde"]
    steps = nt * (1 if pde in ("scalar", "scalar_born") else 2)
    reach = steps * (acc // 2)
    long_ = 2 * reach + 2
    small = [4, 3][: nd - 1]
    h = [1.1, 1.25, 0.8][:nd]
    for pml in ([0] * (2 * (nd - 1)), [2, 1, 0, 2][: 2 * (nd - 1)]):
        low = Cfg(dict(pde=pde, n=small, acc=acc, pml=pml, h=[x for i, x in enumerate(h) if i != ax], dt=0.1, max_vel=2.0))
        n = small[:ax] + [long_] + small[ax:]
        p2 = pml[: 2 * ax] + [0, 0] + pml[2 * ax:]
        high = Cfg(dict(pde=pde, n=n, acc=acc, pml=p2, h=h, dt=0.1, max_vel=2.0))
        cl, ch = R.comps(nd - 1), R.comps(nd)
        up = {cl[i]: ch[[j for j in range(nd) if j != ax][i]] for i in range(nd - 1)}

        def nm(k):
            ls = letters(pde, k)
            if not ls:
                return k
            tt = [up[x] for x in ls]
            if "sigma" in k:
                tt[:2] = sorted(tt[:2])
            i = {"p": 3, "z": 4, "m": 3, "s": 5, "v": 1}[k[0]]
            i = k.index(ls, i)
            return k[:i] + "".join(tt) + k[i + len(ls):]
        ext = lambda u, b: u.unsqueeze(ax + b).expand(*u.shape[:ax + b], long_, *u.shape[ax + b:]).contiguous()  # noqa: E731
        m = low.models(salt=3)
        names = low.names()
        N = G.math.prod(low.n)
        eye = torch.eye(N, dtype=F64).view(N, *low.n)
        for k in names:
            fl, _ = call(low, m, nt, None, None, None, {k: eye})
            fh, _ = call(high, {q: ext(v, 0) for q, v in m.items()}, nt, None, None, None, {nm(k): ext(eye, 1)})
            r.states += N
            r.traces += N
            r.transitions += 2 * N * nt
            r.evaluations += 1
            for q in names:
                mid = fh[nm(q)].select(ax + 1, long_ // 2)
                r.close(f"reduce:{q}", mid, fl[q], low.tol, f"{q} from {k}: {nd}-D uniform along axis {ax} vs {nd - 1}-D",
                        cfg=high.d)
            r.outcome([high.d, k])
    r.sample = {"low": low.d, "high": high.d}
