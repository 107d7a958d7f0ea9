"""C22: every word of function transformations (torch.func) up to a length, applied to the real
propagators as functions of their models, against the same word evaluated with loops and ordinary
reverse-mode differentiation of the reference model."""
import inspect
import itertools

import torch
from torch.func import functional_call, grad, hessian, jacfwd, jacrev, jvp, vjp, vmap

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, dense, func, unpack

LEVEL = "model_checking"
RULE = "distinct digests of (case, transformation word, values)"
BOUNDS = {
    "quick": "alphabet: V (vmap over the models), J (jvp), G (gradient of a quadratic misfit), T (vmap over tangents of "
             "jvp), R (vmap over cotangents of vjp); 4 propagators x 1-3-D: all words up to length 2 with every non-empty "
             "subset of the models transformed (the others constant), all words of length 3 with all models (1-D); V with every "
             "assignment of batch dimensions (first, last, shared) to the models; full Jacobians by jacfwd and jacrev "
             "(every model cell x every output) and Hessians (every pair of cells of all models); modules through "
             "functional_call; every other tensor argument transformed x vmap, jvp, grad, "
             "transformed models without max_vel, and with other backends: an exception or the right values",
    "thorough": "as quick with all words of length 3 for every dimension and subset, and all accuracies",
}
ASSUMPTIONS = ["derivatives of the reference model are computed by torch's ordinary reverse mode",
               "words with two forward-mode operators are not applied to the scattering potential alone: the second forward "
               "derivative is then symbolically zero, and PyTorch refuses in-place operations on such tangents under vmap"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
OPS = "VJGTR"
ROW = dict(acc=4, size="small", pml="a", sub=1, iv=1, store="device", comp=False, cbf=1, cbk="none", batch="shared", S=2, nt=3,
           src="all", rec="all", nsrc=2, ign="none", survey="none", init="all", win="none", want="models", thr=1, sign=1,
           layout="plain", dtype="double", vel="given")
FIX = dict(store="device", comp=False, vel="given", want="models")
WORDS2 = [a + b for a in OPS for b in OPS]


def combined(task, r):
    for i, c in enumerate(compose.cases(task, **FIX)):
        keys = list(c.models)
        for w in (OPS[i % 5], WORDS2[(7 * i) % 25]):
            sub = [k for j, k in enumerate(keys) if (i // 5 + 1) % (2 ** len(keys) - 1) + 1 >> j & 1]
            word(r, c, sub, w, "compose:")
        r.sample = c.row


COMBINED = compose.plan(combined, quick=dict(t=2))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for nd, pde in itertools.product((3, 2, 1), PDES):
        for acc in (2, 4, 6, 8) if th else ((2, 8) if nd == 1 else (4,) if nd == 2 else (2,)):
            b = dict(pde=pde, nd=nd, acc=acc)
            out += [dict(b, kind="words", first=x) for x in OPS]
            out.append(dict(b, kind="dims"))
            out.append(dict(b, kind="jac"))
            out.append(dict(b, kind="module"))
            if th or (nd == 1 and acc == 2):
                out += [dict(b, kind="words3", first=x, subsets=th) for x in OPS]
            out.append(dict(b, kind="reject"))
    return out


# ---------------------------------------------------------------- the function of the models
def impl_fun(c, keys, module=False, **over):
    lv = c.leaves()
    kw = {k: v.detach() if isinstance(v, torch.Tensor) else v for k, v in c.kwargs(lv).items()}
    kw.update({"python_backend": "eager"}, **over)
    kw.pop("backward_callback", None)
    order = [("field", k) for k in c.cfg.names()] + [("rec", k) for k in c.rl]
    if module:
        from checks.c18 import module as cls
        ctor = set(inspect.signature(cls(c.pde).__init__).parameters)
        mod = cls(c.pde)(**{k: kw.pop(k) for k in list(kw) if k in ctor})
        have = dict(mod.named_parameters(), **dict(mod.named_buffers()))
        assert set(keys) <= set(have), (keys, list(have))

        def call(kv):
            return functional_call(mod, kv, (), kw)
    else:
        def call(kv):
            return func(c.pde)(**{**kw, **kv})

    def f(*x):
        fl, rec = unpack(c.cfg, call(dict(zip(keys, x))))
        o = G.outs(fl, rec)
        return tuple(o[k] for k in order)

    return f


def ref_fun(c, keys):
    base = c.leaves(lambda x: x.to(c.cfg.dtype).to(F64).clone())
    base = {k: v.detach() for k, v in base.items()}
    order = [("field", k) for k in c.cfg.names()] + [("rec", k) for k in c.rl]

    def f(*x):
        o = c.ref_forward({**base, **{("model", k): v for k, v in zip(keys, x)}}, interval=1)
        return tuple(o[k] for k in order)

    return f


# ---------------------------------------------------------------- the alphabet
def vec(shape, salt, like):
    return dense(tuple(shape), salt).to(like.dtype)


def misfit(y):
    return sum((vec(v.shape, 40.0 + i, v) * v**2 + vec(v.shape, 50.0 + i, v) * v).sum() for i, v in enumerate(y))


def tangents(x, lev):
    return tuple(vec(v.shape, 60.0 + 3 * lev + i, v) for i, v in enumerate(x))


def many(x, lev, base):
    return tuple(vec((2, *v.shape), base + 3 * lev + i, v) for i, v in enumerate(x))


def apply_impl(op, f, lev, dims=None):
    if op == "V":
        return lambda *x: vmap(f, in_dims=dims or 0)(*x)
    if op == "J":
        return lambda *x: jvp(f, x, tangents(x, lev))[1]
    if op == "G":
        return lambda *x: grad(lambda *z: misfit(f(*z)), argnums=tuple(range(len(x))))(*x)
    if op == "T":
        return lambda *x: vmap(lambda *t: jvp(f, x, t)[1])(*many(x, lev, 70.0))

    def reverse(*x):
        y, fn = vjp(f, *x)
        return vmap(lambda *u: fn(u))(*many(y, lev, 80.0))

    return reverse


def ag(y, x, u):
    """Reverse mode with zeros where nothing depends."""
    p = [(a, b) for a, b in zip(y, u) if a.requires_grad]
    if not p:
        return tuple(torch.zeros_like(v) for v in x)
    g = torch.autograd.grad([a for a, _ in p], x, [b for _, b in p], create_graph=True, allow_unused=True)
    return tuple(torch.zeros_like(v) if w is None else w for v, w in zip(x, g))


def forward_mode(f, x, t):
    y = f(*x)
    u = [torch.zeros_like(v).requires_grad_() for v in y]
    g = ag(y, x, u)
    return ag(g, u, t)


def apply_ref(op, f, lev, dims=None):
    stack = lambda rows: tuple(torch.stack(v) for v in zip(*rows))  # noqa: E731
    if op == "V":
        def loop(*x):
            d = dims or (0,) * len(x)
            n = next(v.shape[k] for v, k in zip(x, d) if k is not None)
            return stack([f(*[v if k is None else v.select(k, i) for v, k in zip(x, d)]) for i in range(n)])
        return loop
    if op == "J":
        return lambda *x: forward_mode(f, x, tangents(x, lev))
    if op == "G":
        return lambda *x: ag((misfit(f(*x)),), x, (torch.ones((), dtype=F64),))
    if op == "T":
        return lambda *x: stack([forward_mode(f, x, [v[i] for v in many(x, lev, 70.0)]) for i in range(2)])

    def reverse(*x):
        y = f(*x)
        u = many(y, lev, 80.0)
        return stack([ag(y, x, [v[i] for v in u]) for i in range(2)])

    return reverse


def word(r, c, keys, w, key="", dims=None, module=False):
    """w[0] is applied first (innermost)."""
    if list(keys) == ["scatter"] and w.count("J") + w.count("T") > 1:
        return  # see ASSUMPTIONS
    x = [c.models[k].to(c.cfg.dtype) for k in keys]
    fi, fr = impl_fun(c, keys, module), ref_fun(c, keys)
    for lev, op in enumerate(w):
        fi, fr = apply_impl(op, fi, lev, dims), apply_ref(op, fr, lev, dims)
        if op == "V":
            d = dims or (0,) * len(x)
            x = [v if k is None else torch.stack([v, v * 0.97], k) for v, k in zip(x, d)]
    what = f"word {w} of transformations, models {keys}: "
    det = dict(word=w, models=list(keys), dims=dims, options=c.row, cfg=c.cfg.d)
    try:
        got = fi(*x)
    except Exception as e:  # noqa: BLE001
        r.violate(f"{key}raised:{w}", f"{what}raised {type(e).__name__}: {str(e)[:200]}", **det)
        return
    want = fr(*[v.to(F64).clone().requires_grad_() for v in x])
    if len(got) != len(want):
        r.violate(f"{key}count:{w}", f"{what}{len(got)} results instead of {len(want)}", **det)
        return
    tol = 1e-8 if c.cfg.dtype == F64 else 2e-2
    s = max(1e-3, *[float(v.detach().abs().max()) for v in want if v.numel()]) * 1e-3
    for i, (a, b) in enumerate(zip(got, want)):
        r.close(f"{key}value:{w}", a, b, tol, f"{what}result {i}", scale=max(s, float(b.detach().abs().max()) if b.numel() else 0), **det)
    r.states += 1
    r.traces += 1
    r.evaluations += 1
    r.transitions += c.S * c.nt * c.ratio
    r.outcome([c.pde, c.nd, c.row, w, list(keys), dims] + [round(float(v.detach().double().norm()), 5) for v in got])


def subsets(names):
    return [s for n in range(1, len(names) + 1) for s in itertools.combinations(names, n)]


def run(t, r, tier, seed):
    row = dict(ROW, acc=t["acc"])
    mk = lambda **k: compose.Case(t["pde"], t["nd"], dict(row, **k), 3)  # noqa: E731
    c = mk()
    names = list(c.models)
    kind = t["kind"]
    r.sample = dict(kind=kind, row=row)
    if kind == "words":
        for s in subsets(names):
            word(r, c, s, t["first"])
            for b in OPS:
                word(r, c, s, t["first"] + b)
    elif kind == "words3":
        for s in subsets(names) if t["subsets"] else [tuple(names)]:
            for a, b in itertools.product(OPS, OPS):
                word(r, c, s, t["first"] + a + b)
    elif kind == "dims":
        for batch in ("shared", "all", "mix"):
            cc = mk(batch=batch)
            for d in itertools.product((0, -1, None), repeat=len(names)):
                if any(k is not None for k in d):
                    word(r, cc, names, "V", "dims:", d)
    elif kind == "module":
        for s in subsets(names):
            for w in ("V", "J", "G", "GJ", "VG"):
                word(r, c, s, w, "module:", module=True)
    elif kind == "jac":
        jacobians(t, r, mk(nt=2, nsrc=1, rec="all", S=1))
    else:
        reject(t, r, mk())


# ---------------------------------------------------------------- all basis tangents and cotangents
def jacobians(t, r, c):
    names = list(c.models)
    x = tuple(c.models[k].to(c.cfg.dtype) for k in names)
    fi, fr = impl_fun(c, names), ref_fun(c, names)
    xr = tuple(v.clone().requires_grad_() for v in x)
    argn = tuple(range(len(names)))
    # reference: one column per model cell
    y = fr(*xr)
    u = [torch.zeros_like(v).requires_grad_() for v in y]
    g = ag(y, xr, u)
    cols = []
    for k, v in enumerate(x):
        for j in range(v.numel()):
            e = [torch.zeros_like(z) for z in x]
            e[k].view(-1)[j] = 1
            cols.append(torch.cat([z.detach().reshape(-1) for z in ag(g, u, e)]))
    want = torch.stack(cols, 1)
    det = dict(options=c.row, cfg=c.cfg.d)

    def flat(J):
        return torch.cat([torch.cat([a.reshape(-1, v.numel()) for a, v in zip(rowj, x)], 1) for rowj in J])

    for name, fn in (("jacfwd", lambda: jacfwd(fi, argnums=argn)(*x)),
                     ("jacrev", lambda: jacrev(fi, argnums=argn, chunk_size=64)(*x))):
        try:
            got = flat(fn())
        except Exception as e:  # noqa: BLE001
            r.violate("jac:raised", f"{name} raised {type(e).__name__}: {str(e)[:200]}", **det)
            continue
        r.close("jac:" + name, got, want, 1e-9, f"Jacobian of all outputs by {name}", **det)
        r.evaluations += 1
    # the receivers' and the final fields' misfit: Hessian over all pairs of cells
    L = misfit(fr(*xr))
    g = torch.cat([v.reshape(-1) for v in ag((L,), xr, (torch.ones_like(L),))])
    H = []
    for i in range(g.numel()):
        H.append(torch.cat([v.detach().reshape(-1) for v in ag((g[i],), xr, (torch.ones((), dtype=F64),))]))
    H = torch.stack(H)
    try:
        h = hessian(lambda *z: misfit(fi(*z)), argnums=argn)(*x)
        h = torch.cat([torch.cat([b.reshape(v.numel(), w.numel()) for b, w in zip(a, x)], 1) for a, v in zip(h, x)])
        r.close("jac:hessian", h, H, 1e-8, "Hessian of a misfit", **det)
    except Exception as e:  # noqa: BLE001
        r.violate("jac:raised", f"hessian raised {type(e).__name__}: {str(e)[:200]}", **det)
    r.states += want.numel()
    r.traces += want.shape[1] + H.shape[0]
    r.transitions += (want.shape[1] + want.shape[0] + H.shape[0]) * c.nt
    r.outcome([c.pde, c.nd, c.row, round(float(want.norm()), 6), round(float(H.norm()), 6)])


# ---------------------------------------------------------------- what cannot be transformed
def reject(t, r, c):
    """An exception, or the right values: never others."""
    names = list(c.models)
    lv = c.leaves()
    kw = {k: v.detach() if isinstance(v, torch.Tensor) else v for k, v in c.kwargs(lv).items()}
    fn = func(c.pde)
    for arg, v in kw.items():
        if not isinstance(v, torch.Tensor) or arg in names:
            continue
        for backend in ("eager", False):
            f = lambda z: fn(**{**kw, arg: z, "python_backend": backend})  # noqa: E731, B023
            trs = [("vmap", lambda: vmap(f)(torch.stack([v, v])))]  # noqa: B023
            if v.is_floating_point():
                trs += [("jvp", lambda: jvp(f, (v,), (v,))), ("grad", lambda: grad(lambda z: misfit(f(z)))(v))]  # noqa: B023
            for nm, g in trs:
                r.states += 1
                r.evaluations += 1
                try:
                    got = g()
                except Exception as e:  # noqa: BLE001
                    r.outcome([c.pde, c.nd, arg, nm, backend, type(e).__name__])
                    continue
                # accepted: only right values may come out (outputs are affine in these arguments)
                plain = lambda z: fn(**{**kw, arg: z})  # noqa: E731, B023
                if nm == "grad":
                    z = v.clone().requires_grad_()
                    got, want = [got], torch.autograd.grad(misfit(plain(z)), [z])
                elif nm == "jvp":
                    got, want = got[1], [a - b for a, b in zip(plain(2 * v), plain(v))]
                else:
                    want = [torch.stack([a, a]) for a in plain(v)]
                for i, (a, b) in enumerate(zip(got, want)):
                    r.close(f"reject:{nm}:{arg}", a, b, 1e-8, f"{nm} over {arg} (backend {backend}) was accepted: result {i}",
                            cfg=c.cfg.d)
                r.outcome([c.pde, c.nd, arg, nm, backend, "accepted"])
    # models without max_vel, and with the other backends
    for over in (dict(max_vel=None), dict(python_backend=False), dict(python_backend="jit")):
        for s in subsets(names):
            x = tuple(c.models[k] for k in s)
            for op in "VJGR":
                z = [torch.stack([v, v * 0.97]) for v in x] if op == "V" else x
                r.states += 1
                r.evaluations += 1
                try:
                    got = apply_impl(op, impl_fun(c, s, **over), 0)(*z)
                except Exception as e:  # noqa: BLE001
                    r.outcome([c.pde, c.nd, str(over), s, op, type(e).__name__])
                    continue
                cc = c
                if "max_vel" in over:
                    cc = compose.Case(c.pde, c.nd, dict(c.row, vel="auto"), 3)
                want = apply_ref(op, ref_fun(cc, s), 0)(*[v.clone().requires_grad_() for v in z])
                for i, (a, b) in enumerate(zip(got, want)):
                    r.close(f"reject:value:{op}", a, b, 1e-8, f"{over}, models {s}, transformation {op}: result {i}",
                            cfg=c.cfg.d)
                r.outcome([c.pde, c.nd, str(over), s, op, "accepted"])
