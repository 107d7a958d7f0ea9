"""C09: every callback event of the real propagators is logged and compared with the
event sequence and the live state (fields, models, adjoint fields, accumulated gradients)
of the reference transition system at that step; every single-cell edit at every step is
applied to both and the results compared."""
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib import ref as R
from vlib.impl import F64, Cfg, call, dense

LEVEL = "model_checking"
RULE = "distinct digests of observed live states and of results after edits"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x compiled/eager/jit: every frequency 1..nt+1 for nt 1..5 (compiled) / 1..3, all "
             "fields, models and gradients in all three views; sampling interval 1..3 and internal step ratio 1..3; "
             "1-3 threads with shared/per-shot models; every single-cell edit of every field at every step (forward, "
             "backward) in 1-D and 2-D, dense edits in 3-D; every model and gradient edited",
    "thorough": "as quick, 4 accuracies, 4 layer patterns, nt to 9, every single-cell edit in 3-D",
}
ASSUMPTIONS = ["a step is one gradient sampling interval (one user time step by default)"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: [([5], [2, 1]), ([4], [0, 0]), ([4], [0, 3]), ([6], [2, 2])],
          2: [([3, 4], [1, 0, 2, 1]), ([4, 3], [0, 2, 0, 0]), ([3, 3], [0, 0, 0, 0]), ([3, 4], [2, 2, 1, 1])],
          3: [([3, 2, 3], [1, 0, 0, 2, 1, 1]), ([2, 3, 2], [0, 1, 2, 0, 0, 0]), ([2, 2, 2], [0] * 6),
              ([2, 3, 2], [1] * 6)]}
COMBINED = compose.plan(compose.callbacks)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde, nd in itertools.product(PDES, (1, 2, 3)):
        for j, (n, p) in enumerate(SHAPES[nd] if th else SHAPES[nd][:2]):
            for acc in (2, 4, 6, 8) if th else ((4, 2) if j == 0 else (6,)):
                b = dict(pde=pde, n=n, pml=p, acc=acc)
                mx = (9 if th else 5) if nd < 3 else (5 if th else 3)
                out.append(dict(b, kind="watch", nts=list(range(1, mx + 1)), backends=[False]))
                out.append(dict(b, kind="watch", nts=[1, 3] if not th else [1, 2, 3, 4], backends=["eager"]))
                if (j == 0 and acc == 4) or th:
                    out.append(dict(b, kind="watch", nts=[3], backends=["jit"]))
                    out.append(dict(b, kind="ratio", cases=[[iv, ra, 5] for iv in (1, 2, 3) for ra in (1, 2, 3)
                                                             if nd < 3 or iv * ra <= 3]))
                    out.append(dict(b, kind="threads", nt=4))
                    out.append(dict(b, kind="model", nt=3))
                if nd < 3 or th or j == 0:
                    out.append(dict(b, kind="edit", nt=3, basis=nd < 3 or th))
    return out


def state_views(r, key, cfg, st, name, getter, want, pads, ref):
    """Compares the three views of one tensor with the reference (None: skip values)."""
    full, pml, inner = (getter(name, view=v) for v in ("full", "pml", "inner"))
    dflt = getter(name)
    nd = cfg.ndim
    lo = [pads[2 * d] for d in range(nd)]
    s = tuple(slice(lo[d], lo[d] + cfg.n[d]) for d in range(nd))
    ok = tuple(full.shape[-nd:]) == tuple(cfg.n[d] + pads[2 * d] + pads[2 * d + 1] for d in range(nd))
    si = tuple(slice(lo[d] + cfg.pml[2 * d], lo[d] + cfg.pml[2 * d] + cfg.inner[d]) for d in range(nd))
    for v, sl in ((pml, s), (inner, si), (dflt, si)):
        e = full[(..., *sl)]
        ok = ok and v.shape == e.shape and v.data_ptr() == e.data_ptr() and v.stride() == e.stride()
    if not ok:
        r.violate(f"{key}:{name}:view", f"{name}: views do not select the documented regions "
                  f"{tuple(full.shape)} {tuple(pml.shape)} {tuple(inner.shape)}", cfg=cfg.d)
        return
    if want is not None:
        # models at half points have no value at the last point (outside the grid)
        mk = model_mask(cfg, name)
        r.close(f"{key}:{name}", pml.detach().double() * mk, want.broadcast_to(pml.shape) * mk, cfg.tol,
                f"{name} seen by the callback", cfg=cfg.d)
    r.states += 1


MODEL_NAMES = {"scalar": lambda c: {"v": "v"}, "scalar_born": lambda c: {"v": "v", "scatter": "scatter"},
               "acoustic": lambda c: {"K": "K", **{"B" + k: "B" + k for k in c}},
               "elastic": lambda c: {"lamb": "lamb", "mu": "mu",
                                     **{"mu_" + c[i] + c[j]: "mu_" + c[i] + c[j]
                                        for i in range(len(c)) for j in range(i + 1, len(c))},
                                     **{"buoyancy_" + k: "B" + k for k in c}}}


def model_mask(cfg, name):
    mk = torch.ones(cfg.n, dtype=F64)
    c = R.comps(cfg.ndim)
    dims = ""
    if name.startswith("mu_"):
        dims = name[3:]
    elif name.startswith("buoyancy_"):
        dims = name[-1]
    elif len(name) == 2 and name[0] == "B":
        dims = name[1]
    for k in dims:
        d = c.index(k)
        mk.narrow(d, cfg.n[d] - 1, 1).zero_()
    return mk


def masked(cfg, ini):
    """Initial fields without values in cells where the field does not exist."""
    ref = cfg.ref()
    return {k: v * ref.mask(k) for k, v in ini.items()}


class Sim:
    """Reference with prepared models as free variables, stepped explicitly."""

    def __init__(self, cfg, models, q=1, dt=None):
        self.cfg, self.ref, self.q = cfg, cfg.ref(dt), q
        self.m = {k: v.detach() for k, v in self.ref.prepare(models).items()}
        self.names = MODEL_NAMES[cfg.pde](self.ref.c)

    def go(self, s, t0, t1, amps, slocs, rl, m=None, hook=None, ms=None):
        m = m or self.m
        rec = {k: [] for k in rl}
        for t in range(t0, t1):
            if hook:
                s, m = hook(t, s, m)
            for k in rl:
                rec[k].append(self.ref.record(s, k, rl[k], 1 << 31))
            if self.q == 1:
                mt = m
            elif t % self.q == 0:
                mt = {k: v.detach() + self.q * (v - v.detach()) for k, v in m.items()}
            else:
                mt = {k: v.detach() for k, v in m.items()}
            s = self.ref.full_step(s, mt, ms or self.m, {k: a[..., t] for k, a in amps.items()}, slocs, 1 << 31)
        return s, {k: torch.stack(v, -1) if v else torch.zeros(1, dtype=F64) for k, v in rec.items()}

    def start(self, ini, S):
        s = self.ref.zeros(S)
        for k, v in ini.items():
            s[k] = v * self.ref.mask(k)
        return s

    def pull(self, s, t0, t1, amps, slocs, rl, cot_state, cot_rec, mask=True):
        """Gradients of <cotangents, outputs> with respect to state s, amplitudes and models."""
        s = {k: v.detach().clone().requires_grad_() for k, v in s.items()}
        m = {k: v.clone().requires_grad_() for k, v in self.m.items()}
        a = {k: v.clone().requires_grad_() for k, v in amps.items()}
        ms = {k: v.clone().requires_grad_() for k, v in self.m.items()}
        f, rec = self.go(s, t0, t1, a, slocs, rl, m, ms=ms)
        L = sum((f[k] * cot_state[k]).sum() for k in f)
        if t1 > t0:
            L = L + sum((rec[k] * cot_rec[k][..., t0:t1]).sum() for k in rl)
        ks = [("s", k) for k in s] + [("m", k) for k in m] + [("a", k) for k in a] + [("ms", k) for k in ms]
        src = {"s": s, "m": m, "a": a, "ms": ms}
        g = torch.autograd.grad(L, [src[x][k] for x, k in ks], allow_unused=True)
        out = {"s": {}, "m": {}, "a": {}, "ms": {}}
        for (x, k), v in zip(ks, g):
            v = torch.zeros_like(src[x][k]) if v is None else v
            out[x][k] = v * self.ref.mask(k) if x == "s" and mask else v
        return out


def fd_pads(cfg):
    R = cfg.acc // 2
    return [R, R] * cfg.ndim if cfg.pde.startswith("scalar") else [R, R - 1] * cfg.ndim


def back_sign(cfg, k):
    """The adjoint field wavefield_m1 is propagated with opposite sign."""
    return -1.0 if cfg.pde.startswith("scalar") and k.startswith("wavefield") and k.endswith("m1") else 1.0


def watch(r, cfg, nt, f, backend, interval=1, ratio=1, S=2, batch=None, nthreads=1, grads=True):
    """One observed propagation (and backpropagation)."""
    dt = cfg.dt / ratio
    q = interval * ratio
    nti = nt * ratio
    T = -(-nti // q)
    pads = fd_pads(cfg)
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=1, batch=batch, rmax=4)
    if ratio > 1:
        amps, slocs = {}, {}
        rl = {}
    ini = masked(cfg, ini)
    sim = Sim(cfg, m, q, dt)
    key = f"{cfg.pde}:{cfg.ndim}d:{backend}:iv{interval}r{ratio}"
    flog, blog = [], []
    s = sim.start(ini, S)
    live = {0: s}
    for t in range(nti):
        s, _ = sim.go(s, t, t + 1, amps, slocs, {})
        if (t + 1) % q == 0:
            live[(t + 1) // q] = s
    final = s

    def fwd(st):
        flog.append(st.step)
        w = live.get(st.step)
        if abs(st.dt - dt) > 1e-12 * dt:
            r.violate(key + ":dt", f"callback sees dt={st.dt}, internal step is {dt}", cfg=cfg.d)
        if w is None:
            return
        for k in cfg.names():
            state_views(r, key + ":fwd", cfg, st, k, st.get_wavefield, w[k], pads, sim.ref)
        for k, ref_k in sim.names.items():
            state_views(r, key + ":fwd", cfg, st, k, st.get_model, sim.m[ref_k], pads, sim.ref)

    lay = G.out_layout(cfg, rl, nt)
    cot = G.cot_dense(lay, S, 3.0, cfg.dtype)
    cs = {k: cot["field", k] * sim.ref.mask(k) for k in cfg.names()}
    cr = {k: cot["rec", k] for k in rl}
    grads = grads and backend is False

    def bwd(st):
        blog.append(st.step)
        if st.step not in live:
            return
        if abs(st.dt - dt) > 1e-12 * dt:
            r.violate(key + ":bdt", f"backward callback sees dt={st.dt}, internal step is {dt}", cfg=cfg.d)
        with torch.enable_grad():
            g = sim.pull(live[st.step], st.step * q, nti, amps, slocs, rl, cs, cr)
        for k in cfg.names():
            state_views(r, key + ":bwd", cfg, st, k, st.get_wavefield, g["s"][k] * back_sign(cfg, k), pads, sim.ref)
        for k, ref_k in sim.names.items():
            state_views(r, key + ":bwdm", cfg, st, k, st.get_model, sim.m[ref_k], pads, sim.ref)
            state_views(r, key + ":bwdg", cfg, st, k, st.get_gradient, g["m"][ref_k], pads, sim.ref)

    extra = dict(model_gradient_sampling_interval=interval)
    if backend is not False:
        extra["python_backend"] = backend
    old = torch.get_num_threads()
    torch.set_num_threads(nthreads)
    try:
        res = []
        for cb in (True, False):
            e = dict(extra)
            if cb:
                e.update(forward_callback=fwd, callback_frequency=f)
                if grads:
                    e.update(backward_callback=bwd)
            if backend == "jit" or backend == "eager" or not grads:
                ff, rec = call(cfg, m, nt, amps, slocs, rl, ini, **e)
                res.append((G.outs(ff, rec), {}))
            else:
                res.append(G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, None, **e))
    finally:
        torch.set_num_threads(old)
    r.evaluations += 2
    r.transitions += 2 * S * nti
    r.traces += 1
    if flog != list(range(0, T, f)):
        r.violate(key + ":events", f"forward callback ran at {flog}, expected {list(range(0, T, f))}", cfg=cfg.d,
                  nt=nt, f=f)
    bexp = [max(k - f, 0) for k in range(T, 0, -f)]
    if grads and blog != bexp:
        r.violate(key + ":bevents", f"backward callback ran at {blog}, expected {bexp}", cfg=cfg.d, nt=nt, f=f)
    (o1, g1), (o0, g0) = res
    for k in o0:
        r.close(f"{key}:quiet:{k}", o1[k].detach().double(), o0[k].detach().double(), 1e-13 if cfg.dtype == F64
                else 1e-6, f"observing changes output {k}", cfg=cfg.d, nt=nt, f=f)
    for k in g0:
        if g0[k] is None and g1[k] is None:
            continue
        r.close(f"{key}:quietg:{k}", g1[k].double(), g0[k].double(), 1e-12 if cfg.dtype == F64 else 1e-5,
                f"observing changes gradient {k}", cfg=cfg.d, nt=nt, f=f, threads=nthreads)
    for k in cfg.names():
        r.close(f"{key}:end:{k}", o1["field", k].detach().double(), final[k], cfg.tol, f"final {k}", cfg=cfg.d)
    r.outcome(torch.cat([v.detach().double().reshape(-1) for v in o1.values()]))


def edit(r, cfg, nt, step, basis, backend, backward):
    """Every field cell (one per shot) is changed at the given step."""
    cells = []
    ref = cfg.ref()
    for k in cfg.names():
        mk = ref.mask(k).reshape(-1)
        cells += [(k, int(i)) for i in torch.nonzero(mk).reshape(-1)]
    S = len(cells) if basis else 2
    one = lambda x: x[:1].expand(S, *x.shape[1:]).contiguous()  # noqa: E731
    m, amps, slocs, rl, ini = G.setup(cfg, 1, nt, nsrc=1, rmax=3, batch=1)
    amps, slocs, rl, ini = ({k: one(v) for k, v in d.items()} for d in (amps, slocs, rl, ini))
    m = {k: one(v) for k, v in m.items()}
    ini = masked(cfg, ini)
    sim = Sim(cfg, m)
    delta = {k: torch.zeros(S, *cfg.n, dtype=F64) for k in cfg.names()}
    if basis:
        for i, (k, c) in enumerate(cells):
            delta[k][i].view(-1)[c] = 0.75
    else:
        for i, k in enumerate(cfg.names()):
            delta[k] = dense((S, *cfg.n), 7.0 + i) * ref.mask(k)
    key = f"{cfg.pde}:{cfg.ndim}d:{backend}:{'b' if backward else 'f'}edit"

    def cb(st):
        if st.step == step:
            for i, k in enumerate(cfg.names()):
                # alternate between the views; inner only covers part of the field
                full = st.get_wavefield(k, view="full")
                pml = st.get_wavefield(k, view="pml")
                d = delta[k].to(full.dtype)
                if i % 2:
                    p = fd_pads(cfg)
                    full[(slice(None), *(slice(p[2 * j], p[2 * j] + cfg.n[j]) for j in range(cfg.ndim)))] += d
                else:
                    w = tuple(slice(cfg.pml[2 * j], cfg.pml[2 * j] + cfg.inner[j]) for j in range(cfg.ndim))
                    di = torch.zeros_like(d)
                    di[(slice(None), *w)] = d[(slice(None), *w)]
                    pml += d - di
                    inner = st.get_wavefield(k)
                    inner += di[(slice(None), *w)]

    extra = {} if backend is False else dict(python_backend=backend)
    r.evaluations += 1
    r.states += S
    r.transitions += S * nt
    r.traces += S
    if not backward:
        f, rec = call(cfg, m, nt, amps, slocs, rl, ini, forward_callback=cb, **extra)
        s = sim.start(ini, S)

        def hook(t, s, mm):
            return ({k: v + delta[k] for k, v in s.items()} if t == step else s), mm

        fe, re_ = sim.go(s, 0, nt, amps, slocs, rl, hook=hook)
        for k in fe:
            r.close(f"{key}:{k}", f[k].double(), fe[k], cfg.tol, f"{k} after an edit at step {step}", cfg=cfg.d, nt=nt)
        for k in re_:
            r.close(f"{key}:rec{k}", rec[k].double(), re_[k], cfg.tol, f"receivers {k} after an edit at step {step}",
                    cfg=cfg.d, nt=nt)
        r.outcome(torch.cat([v.reshape(-1).double() for v in f.values()]))
        return
    lay = G.out_layout(cfg, rl, nt)
    cot = {k: one(v) for k, v in G.cot_dense(lay, 1, 3.0, cfg.dtype).items()}
    _, got = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, None, backward_callback=cb)
    # reference: two halves joined by the edited adjoint state
    s0 = sim.start(ini, S)
    sk, _ = sim.go(s0, 0, step, amps, slocs, {})
    cs = {k: cot["field", k] * ref.mask(k) for k in cfg.names()}
    cr = {k: cot["rec", k] for k in rl}
    late = sim.pull(sk, step, nt, amps, slocs, rl, cs, cr)
    mid = {k: late["s"][k] + delta[k] * back_sign(cfg, k) for k in late["s"]}
    early = sim.pull(s0, 0, step, amps, slocs, rl, mid, cr)
    for k in ini:
        r.close(f"{key}:init:{k}", got["init", k].double(), early["s"][k], cfg.tol,
                f"gradient of {k} after an adjoint edit at step {step}", cfg=cfg.d, nt=nt)
    for k in amps:
        w = early["a"][k] + late["a"][k]
        r.close(f"{key}:amp:{k}", got["amp", k].double(), w, cfg.tol,
                f"gradient of sources {k} after an adjoint edit at step {step}", cfg=cfg.d, nt=nt)
    if not amps:
        raise AssertionError("no sources")
    # model gradients: chain through the preparation, propagation and source scaling parts
    mu = {k: v.to(F64).clone().requires_grad_() for k, v in m.items()}
    pm = sim.ref.prepare(mu)
    L = sum((pm[k] * (early[x][k] + late[x][k])).sum() for k in pm for x in ("m", "ms"))
    ge = dict(zip(mu, torch.autograd.grad(L, list(mu.values()), allow_unused=True)))
    for k in mu:
        w = torch.zeros_like(mu[k]) if ge[k] is None else ge[k]
        g = got["model", k]
        g = torch.zeros_like(w) if g is None else g.double()
        r.close(f"{key}:model:{k}", g, w, cfg.tol, f"gradient of {k} after an adjoint edit at step {step}",
                cfg=cfg.d, nt=nt)
    r.outcome(torch.cat([v.reshape(-1).double() for v in got.values() if v is not None]))


def model_edit(r, cfg, nt):
    """Edits of every model (forward) and of every gradient (backward)."""
    m, amps, slocs, rl, ini = G.setup(cfg, 2, nt, sources=False, rmax=3)
    ini = masked(cfg, ini)
    sim = Sim(cfg, m)
    lay = G.out_layout(cfg, rl, nt)
    cot = G.cot_dense(lay, 2, 3.0, cfg.dtype)
    for backend in (False, "eager"):
        extra = {} if backend is False else dict(python_backend=backend)
        key = f"{cfg.pde}:{cfg.ndim}d:{backend}:model"
        for name, rk in sim.names.items():
            for step in range(nt):
                def cb(st):
                    if st.step == step:
                        x = st.get_model(name, view="pml")
                        x *= 0.5
                f, rec = call(cfg, m, nt, amps, slocs, rl, ini, forward_callback=cb, **extra)

                def hook(t, s, mm):
                    return s, ({**mm, rk: mm[rk] * 0.5} if t == step else mm)

                fe, re_ = sim.go(sim.start(ini, 2), 0, nt, {}, {}, rl, hook=hook)
                r.evaluations += 1
                r.traces += 1
                r.transitions += 2 * nt
                for k in fe:
                    r.close(f"{key}:{name}:{k}", f[k].double(), fe[k], cfg.tol,
                            f"{k} after halving {name} at step {step}", cfg=cfg.d, nt=nt)
                for k in re_:
                    r.close(f"{key}:{name}:rec{k}", rec[k].double(), re_[k], cfg.tol,
                            f"receivers {k} after halving {name} at step {step}", cfg=cfg.d, nt=nt)
                r.outcome(torch.cat([v.reshape(-1).double() for v in f.values()]))
    cs = {k: cot["field", k] * sim.ref.mask(k) for k in cfg.names()}
    cr = {k: cot["rec", k] for k in rl}
    s0 = sim.start(ini, 2)
    states = [s0]
    for t in range(nt):
        states.append(sim.go(states[-1], t, t + 1, {}, {}, {})[0])
    acc = [sim.pull(states[t], t, nt, {}, {}, rl, cs, cr)["m"] for t in range(nt + 1)]
    key = f"{cfg.pde}:{cfg.ndim}d:gradient"
    for name, rk in sim.names.items():
        for step in range(nt):
            def cb(st):
                if st.step == step:
                    x = st.get_gradient(name, view="pml")
                    x *= -0.5
            _, got = G.impl(cfg, m, nt, amps, slocs, rl, ini, cot, None, backward_callback=cb)
            tot = {k: v.clone() for k, v in acc[0].items()}
            tot[rk] = acc[step][rk] * -0.5 + (acc[0][rk] - acc[step][rk])
            mu = {k: v.to(F64).clone().requires_grad_() for k, v in m.items()}
            pm = sim.ref.prepare(mu)
            L = sum((pm[k] * tot[k]).sum() for k in pm)
            ge = dict(zip(mu, torch.autograd.grad(L, list(mu.values()), allow_unused=True)))
            r.evaluations += 1
            r.traces += 1
            r.transitions += 2 * nt
            for k in mu:
                w = torch.zeros_like(mu[k]) if ge[k] is None else ge[k]
                g = got["model", k]
                g = torch.zeros_like(w) if g is None else g.double()
                r.close(f"{key}:{name}:{k}", g, w, cfg.tol, f"gradient of {k} after editing gradient {name} at "
                        f"step {step}", cfg=cfg.d, nt=nt)
            r.outcome(torch.cat([v.reshape(-1).double() for v in got.values() if v is not None]))


def run(task, r, tier, seed):
    kind = task["kind"]
    cfg = Cfg(task)
    if kind == "watch":
        for backend, nt in itertools.product(task["backends"], task["nts"]):
            for f in range(1, nt + 2):
                watch(r, cfg, nt, f, backend)
        c32 = Cfg(dict(task, dtype="float"))
        watch(r, c32, 3, 2, task["backends"][0])
    elif kind == "ratio":
        for iv, ra, nt in task["cases"]:
            c = Cfg(dict(task, dt=cfg.dt * (ra - 0.1) if ra > 1 else cfg.dt))
            T = -(-nt // iv)
            for f in range(1, T + 2):
                watch(r, c, nt, f, False, iv, ra)
            watch(r, c, nt, 1, "eager", iv, ra)
            watch(r, c, nt, 2, "eager", iv, ra)
    elif kind == "threads":
        for nth, S, batch in ((2, 2, None), (3, 3, None), (2, 3, None), (3, 3, 3), (4, 2, None), (2, 3, 1)):
            for f in range(1, task["nt"] + 1):
                watch(r, cfg, task["nt"], f, False, S=S, batch=batch, nthreads=nth)
    elif kind == "model":
        model_edit(r, cfg, task["nt"])
    elif kind == "edit":
        for step in range(task["nt"]):
            edit(r, cfg, task["nt"], step, task["basis"], False, False)
            edit(r, cfg, task["nt"], step, task["basis"], "eager", False)
            edit(r, cfg, task["nt"], step, task["basis"], False, True)
