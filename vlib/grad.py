"""Vector-Jacobian products of the real propagators and of the reference."""

import math

import torch

from vlib.impl import F64, call, dense


def setup(cfg, S, nt, salt=0.0, nsrc=2, batch=None, sources=True, init=True, rmax=None, kinds=None):
    """Dense inputs: models, amps, slocs, rlocs, init (float64, dtype-exact)."""
    q = lambda x: x.to(cfg.dtype).to(F64)  # noqa: E731
    m = cfg.models(salt=salt, batch=batch)
    ini = {k: q(dense((S, *cfg.n), salt + i)) for i, k in enumerate(cfg.names())} if init else {}
    slocs, amps, rl = {}, {}, {}
    if sources and nt > 0:
        for i, k in enumerate(cfg.skinds()):
            loc = cfg.all_locs(k)
            if not len(loc) or (kinds is not None and k not in kinds):
                continue
            c = min(nsrc, len(loc))
            st = max(1, len(loc) // c)
            pick = torch.tensor([(i + j * st) % len(loc) for j in range(c)])
            slocs[k] = loc[pick][None].expand(S, -1, -1).contiguous()
            amps[k] = q(dense((S, c, nt), salt + 20 + i))
    for k in cfg.rkinds():
        loc = cfg.all_locs(k)
        if len(loc):
            if rmax and len(loc) > rmax:
                st = len(loc) / rmax
                loc = loc[[int(j * st) for j in range(rmax)]]
            rl[k] = loc[None].expand(S, -1, -1).contiguous()
    return m, amps, slocs, rl, ini


def out_layout(cfg, rl, nt):
    """[(group, name, shape-without-batch)] of all outputs."""
    lay = [("field", k, tuple(cfg.n)) for k in cfg.names()]
    lay += [("rec", k, (x.shape[1], nt)) for k, x in rl.items()]
    return lay


def out_size(lay):
    return sum(math.prod(s) for _, _, s in lay)


def cot_basis(lay, lo=0, hi=None):
    """Cotangents: shot s has a one in output component lo+s."""
    N = out_size(lay)
    hi = N if hi is None else min(hi, N)
    cot, off = {}, 0
    for g, k, s in lay:
        L = math.prod(s)
        m = torch.zeros(hi - lo, L, dtype=F64)
        for c in range(max(lo, off), min(hi, off + L)):
            m[c - lo, c - off] = 1
        cot[g, k] = m.view(hi - lo, *s)
        off += L
    return cot


def cot_dense(lay, S, salt=0.0, dtype=F64):
    return {(g, k): dense((S, *s), salt + i).to(dtype).to(F64) for i, (g, k, s) in enumerate(lay)}


def leaves(models, amps, init, want, conv):
    """Fresh leaf tensors; want: set of keys or None for all."""
    out = {}
    for g, d in (("model", models), ("amp", amps), ("init", init)):
        for k, v in d.items():
            t = conv(v.detach().clone())
            if want is None or (g, k) in want:
                t.requires_grad_()
            out[g, k] = t
    return out


def split(lv):
    m, a, i = {}, {}, {}
    for (g, k), v in lv.items():
        {"model": m, "amp": a, "init": i}[g][k] = v
    return m, a, i


def outs(f, rec):
    o = {("field", k): v for k, v in f.items()}
    o.update({("rec", k): v for k, v in rec.items()})
    return o


def vjp(lv, o, cot, want, **kw):
    keys = [k for k in lv if want is None or k in want]
    os_, cs = [], []
    for k, c in cot.items():
        if o[k].requires_grad:
            os_.append(o[k])
            cs.append(c.to(o[k].dtype))
    if not os_:
        return {k: None for k in keys}
    g = torch.autograd.grad(os_, [lv[k] for k in keys], cs, allow_unused=True, **kw)
    return dict(zip(keys, g))


def impl(cfg, models, nt, amps, slocs, rl, init, cot, want=None, **extra):
    lv = leaves(models, amps, init, want, lambda x: x.to(cfg.dtype))
    m, a, i = split(lv)
    f, rec = call(cfg, m, nt, a, slocs, rl, i, **extra)
    o = outs(f, rec)
    return o, vjp(lv, o, cot, want)


def reference(cfg, models, nt, S, amps, slocs, rl, init, cot, want=None, interval=1):
    lv = leaves(models, amps, init, want, lambda x: x.to(F64))
    m, a, i = split(lv)
    f, rec = cfg.ref().run(m, nt, S, a, slocs, rl, i, interval=interval)
    o = outs(f, rec)
    return o, vjp(lv, o, cot, want)


def compare(r, cfg, key, got, want, tol=None, what="", groups=None, **d):
    """got, want: dictionaries of gradients (None = zero)."""
    ok = True
    for k, w in want.items():
        if groups and k[0] not in groups:
            continue
        g = got.get(k)
        if w is None and g is None:
            continue
        if w is None:
            w = torch.zeros_like(g)
        if g is None:
            g = torch.zeros_like(w)
        ok &= r.close(f"{key}:{k[0]}:{k[1]}", g, w, tol or cfg.tol, f"{what} gradient of {k[0]} {k[1]}",
                      cfg=cfg.d, **d)
    return ok
