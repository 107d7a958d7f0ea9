"""C18: module and functional interface run side by side for every argument, every pair
of arguments and every requires_grad assignment."""
import inspect
import itertools
import os

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import Cfg, dense, func

LEVEL = "model_checking"
RULE = "distinct digests of (arguments, outputs, gradients)"
BOUNDS = {
    "quick": "4 propagators: every argument with non-default values and every pair of them (2-D), every single one in "
             "1-D and 3-D; all 2^k requires_grad flags x changes of the attributes after construction; default values "
             "of every argument; parameters registered, detached from the given tensors, state_dict round trip",
    "thorough": "as quick with pairs in all dimensions and triples of the non-field arguments in 2-D",
}
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
COMBINED = compose.plan(compose.modules)


def tasks(tier, seed):
    out = []
    th = tier == "thorough"
    for pde, nd in itertools.product(PDES, (1, 2, 3)):
        base = dict(pde=pde, acc=4, n=[9, 8, 6][:nd], pml=[2, 1, 1, 2, 0, 1][: 2 * nd], nt=6)
        for part in range(8):
            out.append(dict(base, kind="args", part=part, size=(3 if nd == 2 else 2) if th else 2 if nd == 2 else 1))
        out.append(dict(base, kind="params"))
    return out


def module(pde):
    import deepwave
    return {"scalar": deepwave.Scalar, "scalar_born": deepwave.ScalarBorn, "acoustic": deepwave.Acoustic,
            "elastic": deepwave.Elastic}[pde]


class Log:
    def __init__(self):
        self.ev = []

    def __call__(self, st):
        names = sorted(st._wavefields) if hasattr(st, "_wavefields") else []
        self.ev.append((st.step, round(st.dt, 12), names))


def base_call(cfg, nt):
    from vlib.impl import kwargs_for
    S = 2
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, salt=6, rmax=5)
    kw = kwargs_for(cfg, {}, None, amps, slocs, rl, None)
    for k in ("accuracy", "pml_width", "pml_freq", "max_vel"):
        kw.pop(k)
    kw["pml_width"] = 2
    kw["dt"] = cfg.dt * 2.5  # internal sub-steps, so that the resampling arguments matter
    return m, kw, ini


def settings(cfg, kw, ini, nt, scratch):
    """name -> list of (label, dict of arguments for the functional call)."""
    n = cfg.inner
    one = [1] * (2 * cfg.ndim)
    nd = cfg.ndim
    full = {k: dense((2, *[x + 4 for x in n]), i) for i, k in enumerate(ini)}
    s = [("accuracy", dict(accuracy=8)), ("pml_width", dict(pml_width=[2, 0, 1, 3, 1, 0][: 2 * nd])),
         ("pml_freq", dict(pml_freq=0.4)), ("max_vel", dict(max_vel=5.0)), ("survey_pad", dict(survey_pad=0)),
         ("interval", dict(model_gradient_sampling_interval=2)), ("freq_taper_frac", dict(freq_taper_frac=0.6)),
         ("time_pad_frac", dict(time_pad_frac=0.7)), ("time_taper", dict(time_taper=True)),
         ("forward_callback", "fc"), ("backward_callback", "bc"), ("callback_frequency", dict(callback_frequency=2)),
         ("python_backend", dict(python_backend="eager")), ("storage_mode", dict(storage_mode="none")),
         ("storage_cpu", dict(storage_mode="cpu")),
         ("storage_path", dict(storage_mode="disk", storage_path=os.path.join(scratch, "store"))),
         ("storage_compression", dict(storage_compression=True)),
         ("dt", dict(dt=cfg.dt * 1.7)), ("grid_spacing", dict(grid_spacing=1.7)), ("origin", "origin")]
    for k in ini:
        s.append((k, {k: full[k]}))
    for k in list(kw):
        if k.startswith("source_amplitudes"):
            kind = k[len("source_amplitudes"):]
            s.append(("no" + k, {k: None, "source_locations" + kind: None}))
        elif "receiver_locations" in k:
            s.append(("no" + k, {k: None}))
    s.append(("nt", "nt"))
    return s


def build(cfg, m, kw, ini, combo, nt):
    """Functional keyword arguments for a combination; None if contradictory."""
    a = dict(kw)
    labels = [c[0] for c in combo]
    logs = []
    for label, d in combo:
        if d == "fc":
            lg = Log()
            logs.append(lg)
            a["forward_callback"] = lg
        elif d == "bc":
            lg = Log()
            logs.append(lg)
            a["backward_callback"] = lg
        elif d == "nt":
            for k in list(a):
                if k.startswith("source_"):
                    a[k] = None
            a["nt"] = nt - 1
            if not any(x in ini for x in labels):
                k0 = cfg.names()[0]
                a[k0] = dense((2, *[x + 4 for x in cfg.inner]), 3)
        elif d == "origin":
            a["origin"] = [0] * cfg.ndim
            if not any(x in ini for x in labels):
                k0 = cfg.names()[0]
                a[k0] = dense((2, *[x + 4 for x in cfg.inner]), 4)
        else:
            a.update(d)
    if "survey_pad" in labels and ("origin" in labels or any(x in ini for x in labels)):
        return None
    if "pml_width" in labels and (any(x in ini for x in labels) or "nt" in labels or "origin" in labels):
        pw = a["pml_width"]
        sh = [cfg.inner[i] + pw[2 * i] + pw[2 * i + 1] for i in range(cfg.ndim)]
        for k in ini:
            if a.get(k) is not None:
                a[k] = dense((2, *sh), 7)
    if "nosource_amplitudes" in "".join(labels) and "nt" not in labels:
        if not any(k.startswith("source_amp") and a[k] is not None for k in a):
            if not any(x in ini for x in labels):
                return None
            a["nt"] = nt
    return a, logs


def graph_names(outs):
    return [type(o.grad_fn).__name__ if o.grad_fn is not None else None for o in outs]


def execute(kind, cfg, m, a, logs):
    """Runs one interface; returns everything observable."""
    cls, f = module(cfg.pde), func(cfg.pde)
    leaf = {k: v.clone().requires_grad_() for k, v in a.items() if isinstance(v, torch.Tensor) and v.dtype.is_floating_point}
    a = {k: leaf.get(k, v) for k, v in a.items()}
    ctor = set(inspect.signature(cls.__init__).parameters)
    if kind == "func":
        mm = {k: v.clone().requires_grad_() for k, v in m.items()}
        out = f(**mm, **a)
        par = mm
    else:
        c = {k: v for k, v in a.items() if k in ctor}
        fw = {k: v for k, v in a.items() if k not in ctor}
        mod = cls(**m, **{k + "_requires_grad": True for k in m}, **c)
        out = mod(**fw)
        par = {k: getattr(mod, k) for k in m}
    names = graph_names(out)
    stored = None
    if a.get("storage_mode") == "disk":
        stored = sorted(len(fs) for _, _, fs in os.walk(a["storage_path"]))
    loss = sum((o * dense(tuple(o.shape), 3 + i)).sum() for i, o in enumerate(out) if o.numel())
    keys = list(leaf) + list(par)
    g = torch.autograd.grad(loss, [*leaf.values(), *par.values()], allow_unused=True)
    return [o.detach() for o in out], dict(zip(keys, g)), names, stored, [list(x.ev) for x in logs]


def observe(cfg, m, kw, ini, combo, nt, kind):
    b = build(cfg, m, kw, ini, combo, nt)
    if b is None:
        return None
    a, logs = b
    if a.get("storage_path"):
        os.makedirs(a["storage_path"], exist_ok=True)
    try:
        return execute(kind, cfg, m, a, logs)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, str(e)


def same(r, key, x, y, what, cfg):
    if isinstance(x[0], str) or isinstance(y[0], str):
        if x != y:
            r.violate(key + ":exception", f"{what}: functional {x[:2] if isinstance(x[0], str) else 'succeeds'}, "
                      f"module {y[:2] if isinstance(y[0], str) else 'succeeds'}", cfg=cfg.d)
        return False
    if len(x[0]) != len(y[0]):
        r.violate(key + ":count", f"{what}: {len(x[0])} against {len(y[0])} outputs", cfg=cfg.d)
        return False
    for i, (p, q) in enumerate(zip(x[0], y[0])):
        r.close(f"{key}:out{i}", q, p, 1e-14, f"{what}: output {i} of the module", cfg=cfg.d)
    for k in x[1]:
        p, q = x[1][k], y[1][k]
        if (p is None) != (q is None):
            r.violate(f"{key}:grad", f"{what}: gradient of {k} present in one interface only", cfg=cfg.d)
        elif p is not None:
            r.close(f"{key}:grad", q, p, 1e-13, f"{what}: gradient of {k} in the module", cfg=cfg.d)
    for j, n in ((2, "execution path"), (3, "stored files"), (4, "callback events")):
        if x[j] != y[j]:
            r.violate(f"{key}:{n}", f"{what}: {n} differ: {x[j]} against {y[j]}", cfg=cfg.d)
    return True


def run(t, r, tier, seed):
    cfg = Cfg(t)
    nt = t["nt"]
    m, kw, ini = base_call(cfg, nt)
    if t["kind"] == "params":
        return params(t, r, cfg, m, kw)
    st = settings(cfg, kw, ini, nt, t["_scratch"])
    combos = [()]
    for k in range(1, t["size"] + 1):
        pool = st if k < 3 else [x for x in st if x[0] not in ini]
        combos += list(itertools.combinations(pool, k))
    base = observe(cfg, m, kw, ini, (), nt, "func")
    for i, combo in enumerate(combos):
        if i % 8 != t["part"]:
            continue
        names = [c[0] for c in combo]
        x = observe(cfg, m, kw, ini, combo, nt, "func")
        if x is None:
            continue
        y = observe(cfg, m, kw, ini, combo, nt, "module")
        ok = same(r, "+".join(names) or "base", x, y, f"arguments {names}", cfg)
        r.evaluations += 2
        r.states += 1
        r.traces += 1
        r.transitions += nt
        r.outcome([cfg.d, names] + ([round(float(o.norm()), 9) for o in x[0]] + [
            round(float(g.norm()), 9) for g in x[1].values() if g is not None] if ok else [x]))
        if len(combo) == 1 and ok and not isinstance(base[0], str):
            # non-vacuity: the argument is visible in what is compared
            sig = lambda z: [tuple(o.shape) for o in z[0]] + [round(float(o.norm()), 12) for o in z[0]] + [  # noqa: E731
                None if g is None else round(float(g.norm()), 12) for g in z[1].values()] + list(z[2:])
            if sig(x) != sig(base):
                r.notes["arguments_with_visible_effect"] = r.notes.get("arguments_with_visible_effect", 0) + 1
            else:
                r.notes["arguments_without_visible_effect"] = r.notes.get("arguments_without_visible_effect", 0) + 1
    r.sample = {"cfg": cfg.d, "combinations": len(combos)}


def params(t, r, cfg, m, kw):
    cls, f = module(cfg.pde), func(cfg.pde)
    fs = inspect.signature(f).parameters
    ci, cf = inspect.signature(cls.__init__).parameters, inspect.signature(cls.forward).parameters
    names = list(m)
    accepted = (set(ci) | set(cf)) - {"self"} - {k + "_requires_grad" for k in names}
    if accepted != set(fs):
        r.violate("signature", f"arguments differ: only one interface accepts {sorted(accepted ^ set(fs))}")
    for k in fs:
        d = (cf if k in cf else ci)[k].default if k in cf or k in ci else None
        if d != fs[k].default:
            r.violate(f"default:{k}", f"default of {k}: functional {fs[k].default!r}, module {d!r}")
        r.states += 1
    h = cfg.h if cfg.ndim > 1 else cfg.h[0]
    fw = {k: v for k, v in kw.items() if k != "grid_spacing"}
    # all requires_grad flags, given and omitted
    for flags in itertools.product((None, False, True), repeat=len(names)):
        given = {k + "_requires_grad": v for k, v in zip(names, flags) if v is not None}
        src = {k: v.clone().requires_grad_(i % 2 == 0) for i, (k, v) in enumerate(m.items())}
        mod = cls(**src, grid_spacing=h, **given)
        want = {k: bool(v) for k, v in zip(names, flags)}
        got = {k: p.requires_grad for k, p in mod.named_parameters()}
        if got != want:
            r.violate("requires_grad", f"flags {given}: parameters {got}, expected {want}")
        for k in names:
            if not torch.equal(getattr(mod, k).detach(), m[k]):
                r.violate("value", f"attribute {k} differs from the model given")
        out = mod(**fw)
        anyg = any(want.values())
        x = [o for o in out if o.requires_grad]
        if anyg != bool(x):
            r.violate("graph", f"flags {want}: {len(x)} outputs require gradients")
        if x:
            sum((o * dense(tuple(o.shape), i)).sum() for i, o in enumerate(x)).backward()
            mm = {k: v.clone().requires_grad_(want[k]) for k, v in m.items()}
            out2 = [o for o in f(**mm, grid_spacing=h, **fw)]
            y = [o for o in out2 if o.requires_grad]
            sum((o * dense(tuple(o.shape), i)).sum() for i, o in enumerate(y)).backward()
            for k in names:
                p, q = getattr(mod, k).grad, mm[k].grad
                if (p is None) != (q is None):
                    r.violate("flag-grad", f"flags {want}: gradient of {k} in one interface only")
                elif p is not None:
                    r.close("flag-grad", p, q, 1e-13, f"flags {want}: gradient of {k}", cfg=cfg.d)
            if any(s.grad is not None for s in src.values()):
                r.violate("detached", "gradients propagated to the tensors given to the constructor")
        r.states += 1
        r.evaluations += 2
        r.traces += 1
        r.outcome([cfg.d, flags])
    # values replaced after construction take effect
    for k in names:
        mod = cls(**m, grid_spacing=h)
        new = m[k] * 1.05
        with torch.no_grad():
            getattr(mod, k).copy_(new)
        out = mod(**fw)
        ref = f(**{**m, k: new}, grid_spacing=h, **fw)
        for i, (a, b) in enumerate(zip(out, ref)):
            r.close("update", a, b, 1e-14, f"after updating {k}: output {i}", cfg=cfg.d)
        mod2 = cls(**m, grid_spacing=h)
        mod2.load_state_dict(mod.state_dict())
        for i, (a, b) in enumerate(zip(mod2(**fw), ref)):
            r.close("state_dict", a, b, 1e-14, f"after load_state_dict: output {i}", cfg=cfg.d)
        r.states += 1
        r.evaluations += 3
        r.outcome([cfg.d, "update", k])
    for bad in (1, "yes", None, 0):
        for k in names:
            try:
                cls(**m, grid_spacing=h, **{k + "_requires_grad": bad})
                r.violate("flag-type", f"{k}_requires_grad={bad!r} accepted")
            except TypeError:
                pass
    r.sample = {"cfg": cfg.d, "arguments": len(fs)}
