"""C23: every way of obtaining the gradients of the same propagation: all assignments of
checkpointing to the segments of every division in time, saved-tensor hooks, repeated, partial
and accumulated backward passes, other threads, propagation without recording, batched
cotangents, and double backpropagation through these, against one plain call."""
import io
import itertools
import threading

import torch
from torch.utils.checkpoint import checkpoint

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, func, unpack

LEVEL = "model_checking"
RULE = "distinct digests of (case, way, gradients)"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x compiled (device, cpu, disk storage, compressed or not) and Python backend: all divisions of nt=4 "
             "into consecutive segments x all assignments of {plain, reentrant, non-reentrant checkpoint} to them (up to 3 segments), "
             "nested checkpoints; saved-tensor hooks (copy, serialise, off-load, fresh storage at every unpacking); every single "
             "input and output differentiated alone, all orders of two partial passes, 3 repetitions, accumulation by backward; another "
             "thread; no_grad and inference_mode; non-leaf inputs; batched cotangents; anomaly mode; double backward of the scalar "
             "propagator (and of all with the Python backend) under hooks and checkpoints; every covering-array option row under "
             "six ways",
    "thorough": "as quick with nt=6, up to 4 segments and 4 accuracies",
}
ASSUMPTIONS = ["a batched backward pass may be refused; if it is accepted its values must be right",
               "reentrant checkpointing does not support autograd.grad and is used with backward"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ROW = dict(acc=4, size="small", pml="a", sub=1, iv=1, store="device", comp=False, cbf=1, cbk="none", batch="shared", S=2, nt=4,
           src="all", rec="all", nsrc=2, ign="none", survey="none", init="all", win="none", want="all", thr=2, sign=1,
           layout="plain", dtype="double", vel="given")


def combined(task, r):
    for c in compose.cases(task):
        plain(c, r, "compose:", few=True)
        r.sample = c.row


COMBINED = compose.plan(combined, quick=dict(t=2, salt=2))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for nd, pde in itertools.product((3, 2, 1), PDES):
        for acc in (2, 4, 6, 8) if th else (2,) if nd == 3 else (4,):
            for store, comp, py in (("device", False, None), ("disk", True, None), ("cpu", False, None), ("device", False, "eager")):
                b = dict(pde=pde, nd=nd, acc=acc, store=store, comp=comp, py=py, nt=6 if th else 4)
                out.append(dict(b, kind="ways"))
                out.append(dict(b, kind="segments", most=4 if th else 3))
                if pde == "scalar" or py:
                    out.append(dict(b, kind="double"))
    return out


# ---------------------------------------------------------------- the propagation as a function of its inputs
class P:
    def __init__(self, c, py=None):
        self.c, self.over = c, {"python_backend": py} if py else {}
        self.order = [("field", k) for k in c.cfg.names()] + [("rec", k) for k in c.rl]

    def leaves(self):
        return self.c.leaves()

    def __call__(self, lv):
        return self.c.forward(lv, **self.over)

    def flat(self, keys):
        """Positional function of the inputs, returning a tuple."""
        def f(*x):
            o = self(dict(zip(keys, x)))
            return tuple(o[k] for k in self.order)
        return f

    def segment(self, keys, lo, hi, recs=True):
        """Steps lo..hi as a function of (inputs, fields at lo)."""
        c = self.c
        names = c.cfg.names()

        def f(*x):
            lv, st = dict(zip(keys, x[: len(keys)])), x[len(keys):]
            m, a, _ = G.split(lv)
            part = {("model", k): v for k, v in m.items()}
            part.update({("amp", k): v[..., lo:hi] for k, v in a.items()})
            part.update({("init", k): v for k, v in zip(names, st)})
            kw = c.kwargs(part, **self.over)
            if not a:
                kw["nt"] = hi - lo
            fl, rec = unpack(c.cfg, func(c.pde)(**kw))
            return tuple(fl[k] for k in names) + tuple(rec[k] for k in c.rl)
        return f


def grads(c, lv, o, **kw):
    return G.vjp(lv, o, c.cot, c.want, **kw)


def loss(c, o):
    return sum((o[k] * c.cot[k].to(o[k].dtype)).sum() for k in o if o[k].requires_grad)


def wanted(c, lv):
    return [k for k in lv if c.want is None or k in c.want]


def same(r, c, key, got, want, what, tol=None):
    tol = tol or (1e-12 if c.cfg.dtype == F64 else 2e-5)
    for k, w in want.items():
        g = got.get(k)
        if g is None and w is None:
            continue
        w = torch.zeros_like(g) if w is None else w
        g = torch.zeros_like(w) if g is None else g
        r.close(f"{key}:{k[0]}:{k[1]}", g, w, tol, f"{what}: {k[0]} {k[1]}", options=c.row, cfg=c.cfg.d,
                scale=max(1e-3, float(w.detach().abs().max()) if w.numel() else 0))
    r.evaluations += 1
    r.traces += c.S


# ---------------------------------------------------------------- saved-tensor hooks
def serialise(x):
    b = io.BytesIO()
    torch.save(x.detach(), b)
    return b.getvalue()


def moved(x):
    """Another layout and storage."""
    y = torch.empty((*x.shape, 2), dtype=x.dtype)[..., 1]
    y.copy_(x.detach())
    return y


HOOKS = {"copy": (lambda x: x.detach().clone(), lambda x: x), "serialise": (serialise, lambda b: torch.load(io.BytesIO(b))),
         "fresh": (lambda x: x.detach().clone(), lambda x: x.clone()), "moved": (moved, lambda x: x)}


def plain(c, r, key, few=False, py=None):
    p = P(c, py)
    old = torch.get_num_threads()
    torch.set_num_threads(c.row["thr"])
    try:
        ways(p, c, r, key, few)
    finally:
        torch.set_num_threads(old)
        torch.set_grad_enabled(True)


def ways(p, c, r, key, few):
    lv = p.leaves()
    o = p(lv)
    g = grads(c, lv, o)
    o = {k: v.detach() for k, v in o.items()}
    r.states += c.S
    r.transitions += c.S * c.nt * c.ratio * 2
    r.outcome([c.pde, c.nd, c.row] + [round(float(x.detach().double().norm()), 6) for x in g.values() if x is not None])
    # without recording
    for nm, ctx in (("no_grad", torch.no_grad), ("inference_mode", torch.inference_mode)):
        with ctx():
            lv = p.leaves()
            q = p(lv)
        same(r, c, f"{key}{nm}", {k: v.clone() for k, v in q.items()}, o, f"outputs under {nm}", 1e-14)
    with torch.no_grad():
        lv = p.leaves()
    q = p({k: v.detach() for k, v in lv.items()})
    same(r, c, f"{key}detached", q, o, "outputs without gradients", 1e-14)
    # saved-tensor hooks
    for nm in ("serialise", "moved") if few else HOOKS:
        lv = p.leaves()
        with torch.autograd.graph.saved_tensors_hooks(*HOOKS[nm]):
            q = p(lv)
        same(r, c, f"{key}hook:{nm}", grads(c, lv, q), g, f"saved-tensor hook ({nm})")
    # repeated, then accumulated
    lv = p.leaves()
    q = p(lv)
    keys = wanted(c, lv)
    for i in range(2):
        same(r, c, f"{key}repeat", grads(c, lv, q, retain_graph=True), g, f"repetition {i} of the same backward pass")
    if any(v.requires_grad for v in q.values()):
        loss(c, q).backward(retain_graph=True)
        loss(c, q).backward()
        same(r, c, f"{key}accumulate", {k: lv[k].grad for k in keys}, {k: None if v is None else 2 * v for k, v in g.items()},
             "two accumulated backward passes")
    # whole call checkpointed
    for re in (False, True):
        lv = p.leaves()
        ks = list(lv)
        if c.row["cbk"] == "none" or not re:
            q = dict(zip(p.order, checkpoint(p.flat(ks), *lv.values(), use_reentrant=re)))
            if any(v.requires_grad for v in q.values()):
                loss(c, q).backward()
            same(r, c, f"{key}checkpoint:{re}", {k: lv[k].grad for k in keys}, g, f"checkpointed call (reentrant {re})")
    # one input at a time, and all splits of the outputs into single ones
    lv = p.leaves()
    q = p(lv)
    for k in keys:
        x = [v for v in q.values() if v.requires_grad]
        if not x:
            break
        w = [c.cot[n].to(v.dtype) for n, v in q.items() if v.requires_grad]
        a, = torch.autograd.grad(x, [lv[k]], w, retain_graph=True, allow_unused=True)
        same(r, c, f"{key}one-input", {k: a}, {k: g[k]}, "differentiated with respect to this input alone")
    if few:
        return
    total = {}
    for n, v in q.items():
        if v.requires_grad:
            for k, a in zip(keys, torch.autograd.grad(v, [lv[k] for k in keys], c.cot[n].to(v.dtype), retain_graph=True,
                                                      allow_unused=True)):
                if a is not None:
                    total[k] = a if k not in total else total[k] + a
    same(r, c, f"{key}one-output", total, g, "sum over outputs differentiated one at a time", c.tol)
    # requires_grad of single inputs
    for k in keys:
        lv = {n: v.detach().requires_grad_(n == k) for n, v in p.leaves().items()}
        q = p(lv)
        same(r, c, f"{key}only:{k[1]}", G.vjp(lv, q, c.cot, {k}), {k: g[k]}, "gradient required of this input only")
    # non-leaf inputs, anomaly mode, another thread
    base = {k: v.detach().requires_grad_() for k, v in p.leaves().items()}
    lv = {k: v * 2 / 2 for k, v in base.items()}
    q = p(lv)
    same(r, c, f"{key}nonleaf", G.vjp(base, q, c.cot, c.want), g, "inputs that are not leaves")
    with torch.autograd.set_detect_anomaly(True):
        lv = p.leaves()
        same(r, c, f"{key}anomaly", grads(c, lv, p(lv)), g, "anomaly detection")
    lv = p.leaves()
    q = p(lv)
    box = {}

    def work():
        try:
            box["g"] = grads(c, lv, q)
        except Exception as e:  # noqa: BLE001
            box["e"] = e

    th = threading.Thread(target=work)
    th.start()
    th.join()
    if "e" in box:
        r.violate(f"{key}thread", f"backward pass in another thread raised {box['e']!r}", cfg=c.cfg.d)
    else:
        same(r, c, f"{key}thread", box["g"], g, "backward pass in another thread")
    # the forward call in another thread
    box.clear()

    def fwd():
        lv = p.leaves()
        box["lv"], box["q"] = lv, p(lv)

    th = threading.Thread(target=fwd)
    th.start()
    th.join()
    same(r, c, f"{key}thread-forward", grads(c, box["lv"], box["q"]), g, "forward call in another thread")
    # batched cotangents: refused or right
    lv = p.leaves()
    q = p(lv)
    x = [v for v in q.values() if v.requires_grad]
    w = [torch.stack([c.cot[n], -2 * c.cot[n]]).to(v.dtype) for n, v in q.items() if v.requires_grad]
    try:
        b = torch.autograd.grad(x, [lv[k] for k in keys], w, is_grads_batched=True, allow_unused=True)
    except RuntimeError:
        r.outcome([c.pde, c.nd, c.row, "batched refused"])
    else:
        same(r, c, f"{key}batched", {k: None if v is None else v[0] for k, v in zip(keys, b)}, g, "batched backward pass, first")
        same(r, c, f"{key}batched", {k: None if v is None else v[1] for k, v in zip(keys, b)},
             {k: None if v is None else -2 * v for k, v in g.items()}, "batched backward pass, second", c.tol)


# ---------------------------------------------------------------- segments
def divisions(nt, most):
    for bits in itertools.product([0, 1], repeat=nt - 1):
        cuts = [0] + [i + 1 for i, b in enumerate(bits) if b] + [nt]
        if len(cuts) - 1 <= most:
            yield list(zip(cuts, cuts[1:]))


def chain(p, lv, segs, how):
    c = p.c
    names = c.cfg.names()
    nf = len(names)
    keys = [k for k in lv if k[0] != "init"]
    x = [lv[k] for k in keys]
    st = [lv["init", k] for k in names]
    recs = []
    for (lo, hi), h in zip(segs, how):
        f = p.segment(keys, lo, hi)
        y = f(*x, *st) if h == "p" else checkpoint(f, *x, *st, use_reentrant=h == "r")
        st, rec = list(y[:nf]), y[nf:]
        recs.append(rec)
    o = {("field", k): v for k, v in zip(names, st)}
    o.update({("rec", k): torch.cat([a[i] for a in recs], -1) for i, k in enumerate(c.rl)})
    return o


def segments(t, r, c):
    p = P(c, t["py"])
    lv = p.leaves()
    o = p(lv)
    g = grads(c, lv, o)
    o = {k: v.detach() for k, v in o.items()}
    tol = 1e-10
    for segs in divisions(c.nt, t["most"]):
        for how in itertools.product("prn", repeat=len(segs)):
            if all(h == "p" for h in how):
                continue
            lv = p.leaves()
            q = chain(p, lv, segs, how)
            what = f"segments {segs} ({''.join(how)}; p plain, r reentrant, n non-reentrant checkpoint)"
            same(r, c, "segments:out", {k: v.detach() for k, v in q.items()}, o, what, tol)
            loss(c, q).backward()
            same(r, c, "segments:grad", {k: lv[k].grad for k in lv}, g, what, tol)
            r.states += c.S
            r.transitions += 3 * c.S * c.nt
            r.outcome([c.pde, c.nd, c.row, segs, how, t["py"]])
    # nested: two segments inside one checkpointed function
    for lo, outer, inner in itertools.product(range(1, c.nt), (True, False), (True, False)):
        lv = p.leaves()
        keys = list(lv)

        def f(*x):
            z = chain(p, dict(zip(keys, x)), [(0, lo), (lo, c.nt)], "rr" if inner else "nn")  # noqa: B023
            return tuple(z[k] for k in p.order)

        q = dict(zip(p.order, checkpoint(f, *lv.values(), use_reentrant=outer)))
        loss(c, q).backward()
        same(r, c, "segments:nested", {k: lv[k].grad for k in lv}, g,
             f"nested checkpoints at {lo} (outer reentrant {outer}, inner {inner})", tol)
        r.states += c.S


# ---------------------------------------------------------------- double backward
def double(t, r, c):
    """Gradient of a functional of the first gradients, for every way of the first pass."""
    p = P(c, t["py"])

    def second(lv, o):
        keys = list(lv)
        g = torch.autograd.grad(sum((o[k] ** 2 * c.cot[k].to(o[k].dtype)).sum() for k in o), [lv[k] for k in keys], create_graph=True)
        L = sum((x ** 2 * G.dense(tuple(x.shape), 7.0 + i).to(x.dtype)).sum() for i, x in enumerate(g))
        h = torch.autograd.grad(L, [lv[k] for k in keys], allow_unused=True)
        return dict(zip(keys, h))

    lv = p.leaves()
    want = second(lv, p(lv))
    for nm, (a, b) in HOOKS.items():
        lv = p.leaves()
        with torch.autograd.graph.saved_tensors_hooks(a, b):
            q = p(lv)
        same(r, c, f"double:hook:{nm}", second(lv, q), want, f"double backward, forward under hook {nm}")
    lv = p.leaves()
    q = dict(zip(p.order, checkpoint(p.flat(list(lv)), *lv.values(), use_reentrant=False)))
    same(r, c, "double:checkpoint", second(lv, q), want, "double backward through a checkpointed call")
    for segs in divisions(c.nt, 2):
        if len(segs) == 1 or c.row["comp"]:  # (second derivatives are quantised once per segment)
            continue
        for how in itertools.product("pn", repeat=len(segs)):
            lv = p.leaves()
            q = chain(p, lv, segs, how)
            same(r, c, "double:segments", second(lv, q), want, f"double backward, segments {segs} ({how})", 1e-9)
            r.states += c.S
    # twice through the same graph
    lv = p.leaves()
    o = p(lv)
    keys = list(lv)
    g = torch.autograd.grad(sum((o[k] ** 2 * c.cot[k]).sum() for k in o), [lv[k] for k in keys], create_graph=True)
    L = sum((x ** 2 * G.dense(tuple(x.shape), 7.0 + i)).sum() for i, x in enumerate(g))
    for i in range(2):
        h = torch.autograd.grad(L, [lv[k] for k in keys], retain_graph=True, allow_unused=True)
        same(r, c, "double:repeat", dict(zip(keys, h)), want, f"double backward, repetition {i}")
    r.states += c.S
    r.transitions += c.S * c.nt * 4
    r.outcome([c.pde, c.nd, c.row, "double", t["py"]] + [round(float(x.norm()), 6) for x in want.values() if x is not None])


def run(t, r, tier, seed):
    row = dict(ROW, acc=t["acc"], store=t["store"], comp=t["comp"], nt=t["nt"])
    c = compose.Case(t["pde"], t["nd"], row, 3)
    r.sample = dict(kind=t["kind"], row=row, py=t["py"])
    if t["kind"] == "ways":
        for batch in ("shared", "mix"):
            plain(compose.Case(t["pde"], t["nd"], dict(row, batch=batch), 3), r, "", py=t["py"])
    elif t["kind"] == "segments":
        segments(t, r, c)
    else:
        double(t, r, compose.Case(t["pde"], t["nd"], dict(row, nt=min(4, t["nt"])), 3))
