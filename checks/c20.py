"""C20: a catalogue of single corruptions applied to every argument of every propagator, in
every dimension and with both backends, starting from calls that are accepted: each must raise
before a time step is taken. And for every valid configuration, values and version counters of
everything passed in are compared before and after forward, backward and double backward."""
import copy
import itertools

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, IGNORE, Cfg, call, dense, func, kwargs_for

LEVEL = "fault_enumeration"
RULE = "distinct (propagator, dimension, backend, argument, corruption, reaction) combinations"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x compiled and Python backend x every tensor, location and setting argument x the "
             "catalogue (type, dimensions, shape, dtype, device, batch, range, duplicates, missing partners, wrong "
             "dimension; single fractional, undefined or partly ignored locations; locations of every integer type); immutability: 4 propagators x 1-3-D x storage modes x resampled or not x layouts (one shot and source, one step, time-major, no layer) x gradients required "
             "of none, each or all x callbacks x backends",
    "thorough": "as quick with every shot, source and coordinate corrupted in turn and all accuracies and layer patterns",
}
ASSUMPTIONS = ["the device corruption uses the meta device (no CUDA device here)",
               "an exception of any type counts as a rejection; a forward callback at every step shows whether the "
               "propagation began"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: ([5], [1, 2]), 2: ([4, 5], [0, 1, 2, 0]), 3: ([4, 3, 4], [0, 0, 1, 0, 0, 1])}
COMBINED = compose.plan(compose.untouched)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for pde, nd in itertools.product(PDES, (1, 2, 3)):
        for backend in (False, "eager"):
            for acc in (2, 4, 6, 8) if th else (4 if nd < 3 else 2,):
                out.append(dict(kind="reject", pde=pde, nd=nd, backend=backend, acc=acc))
                out.append(dict(kind="keep", pde=pde, nd=nd, backend=backend, acc=acc))
    return out


def base(t, S=2, nt=3, ratio=1, nsrc=2, layer=True):
    n, p = SHAPES[t["nd"]]
    p = p if layer else [0] * len(p)
    cfg = Cfg(dict(pde=t["pde"], n=n, pml=p, acc=t["acc"]))
    if ratio > 1:
        cfg = Cfg(dict(cfg.d, dt=cfg.dt * (ratio - 0.05)))
    m, amps, slocs, rl, ini = G.setup(cfg, S, nt, nsrc=nsrc, rmax=2)
    kw = kwargs_for(cfg, m, None, amps, slocs, rl, ini)
    if t["backend"]:
        kw["python_backend"] = t["backend"]
    return cfg, kw


def corruptions(t, cfg, kw, th):
    """(argument, what, change) for every single corruption; change edits a copy of kw."""
    nd, S = t["nd"], 2
    out = []

    def add(arg, what, f):
        out.append((arg, what, f))

    def put(arg, what, val):
        add(arg, what, lambda k: k.__setitem__(arg, val))

    def tensors(arg, x):
        put(arg, "list", x.tolist())
        put(arg, "numpy array", x.numpy())
        put(arg, "string", "x")
        put(arg, "no dimension", x.reshape(-1)[0])
        put(arg, "one dimension too many", x[None, None] if x.ndim == nd else x[None])
        put(arg, "on another device", x.to("meta"))

    models = list(cfg.models())
    amps = [k for k in kw if k.startswith("source_amplitudes")]
    sl = [k for k in kw if k.startswith("source_locations")]
    rl = [k for k in kw if "receiver_locations" in k]
    fields = list(cfg.names())
    for a in models:
        x = kw[a]
        tensors(a, x)
        put(a, "None", None)
        put(a, "two dimensions too many", x[None, None])
        if nd > 1:
            put(a, "one dimension too few", x[0])
        put(a, "three shots instead of two", torch.stack([x] * 3))
        put(a, "single precision", x.float())
        put(a, "half precision", x.half())
        put(a, "integer", x.long() + 1)
        put(a, "complex", x.to(torch.complex128))
        for d in range(nd):
            if len(models) > 1:
                put(a, f"one cell less in dimension {d}", x.narrow(d, 0, x.shape[d] - 1))
                put(a, f"one cell more in dimension {d}", torch.cat([x, x.narrow(d, 0, 1)], d))
    for a in amps:
        x = kw[a]
        tensors(a, x)
        put(a, "two dimensions", x[0])
        put(a, "missing", None)
        put(a, "three shots instead of two", torch.cat([x, x[:1]]))
        put(a, "one shot instead of two", x[:1])
        put(a, "one source too many", torch.cat([x, x[:, :1]], 1))
        put(a, "one source too few", x[:, :1])
        put(a, "single precision", x.float())
        put(a, "integer", x.long())
        put(a, "complex", x.to(torch.complex128))
        if len(amps) > 1:
            put(a, "one step less than the other amplitudes", x[..., :-1])
            put(a, "one step more than the other amplitudes", torch.cat([x, x[..., :1]], -1))
            put(a, "no steps, unlike the other amplitudes", x[..., :0])
    for a in sl + rl:
        x = kw[a]
        tensors(a, x)
        kind = a.split("_")[-1] if a[-2:] in ("_z", "_y", "_x") else None
        if a in sl:
            put(a, "missing", None)
            put(a, "one source too many", torch.cat([x, torch.zeros_like(x[:, :1])], 1))
            put(a, "one source too few", x[:, :1])
        put(a, "two dimensions", x[0])
        put(a, "one coordinate too many", torch.cat([x, x[..., :1]], -1))
        put(a, "one coordinate too few", x[..., :-1])
        put(a, "three shots instead of two", torch.cat([x, x[:1]]))
        put(a, "one shot instead of two", x[:1])
        put(a, "fractional", x.double() + 0.5)
        put(a, "boolean", x.bool())
        for s in range(S) if th else (1,):
            for j in range(x.shape[1]) if th else (x.shape[1] - 1,):
                for d in range(nd):
                    def coord(k, v, a=a, s=s, j=j, d=d):
                        y = k[a].clone()
                        y[s, j, d] = v
                        k[a] = y
                    for v in (-1, -2, cfg.inner[d], cfg.inner[d] + 1, 10**6, 2**40, -(2**40)):
                        add(a, f"coordinate {d} of entry {j} of shot {s} is {v}", lambda k, v=v, c=coord: c(k, v))
        for s, j, d in itertools.product(range(S), range(x.shape[1]), range(nd)):
            for v in (0.5, 0.25, 0.75, float("nan"), float("inf"), -float("inf")):
                def frac(k, a=a, s=s, j=j, d=d, v=v):
                    y = k[a].double()
                    y[s, j, d] += v
                    k[a] = y
                add(a, f"coordinate {d} of entry {j} of shot {s} plus {v}", frac)
        if nd > 1:
            for s, d in itertools.product(range(S), range(nd)):
                for rest in (False, True):
                    def partly(k, a=a, s=s, d=d, rest=rest):
                        y = k[a].clone()
                        y[s, -1, [e for e in range(nd) if (e == d) != rest]] = IGNORE
                        k[a] = y
                    add(a, f"only {'others than ' if rest else ''}coordinate {d} of the last entry of shot {s} ignored", partly)
        if x.shape[1] > 1:
            for s in range(S) if th else (1,):
                def dup(k, a=a, s=s):
                    y = k[a].clone()
                    y[s, 1] = y[s, 0]
                    k[a] = y
                add(a, f"duplicate in shot {s}", dup)
    for a in fields:
        x = kw[a]
        tensors(a, x)
        put(a, "one dimension too few", x[0])
        put(a, "three shots instead of two", torch.cat([x, x[:1]]))
        put(a, "one shot instead of two", x[:1])
        put(a, "single precision", x.float())
        put(a, "integer", x.long())
        put(a, "complex", x.to(torch.complex128))
        for d in range(nd):
            put(a, f"one cell less in dimension {d}", x.narrow(d + 1, 0, x.shape[d + 1] - 1))
            put(a, f"one cell more in dimension {d}", torch.cat([x, x.narrow(d + 1, 0, 1)], d + 1))
    # arguments of a dimension that the propagation does not have
    for big in range(nd + 1, 4):
        c = Cfg(dict(pde=t["pde"], n=[3] * big, pml=[0] * (2 * big), acc=2))
        mine, theirs = set(cfg.names()), [k for k in c.names() if k not in cfg.names()]
        for a in theirs:
            put(a, f"given in {nd}-D", kw[fields[0]])
        for kd in c.skinds():
            if kd not in cfg.skinds() and sl:
                def both(k, kd=kd):
                    k["source_amplitudes_" + kd] = kw[amps[0]]
                    k["source_locations_" + kd] = kw[sl[0]]
                add("source_amplitudes_" + kd, f"given in {nd}-D", both)
                add("source_locations_" + kd, f"given alone in {nd}-D",
                    lambda k, kd=kd: k.__setitem__("source_locations_" + kd, kw[sl[0]]))
        for kd in c.rkinds():
            if kd not in cfg.rkinds() and rl:
                add("receiver_locations_" + kd, f"given in {nd}-D",
                    lambda k, kd=kd: k.__setitem__("receiver_locations_" + kd, kw[rl[0]]))
    # settings
    nan, inf = float("nan"), float("inf")
    bad = {
        "grid_spacing": [0, 0.0, -1.0, [1.0] * (nd + 1), [1.0] * (nd - 1),
                         "x", None, [1.0] * (nd - 1) + [0.0], [1.0] * (nd - 1) + [-1.0], ["x"] * nd, [None] * nd,
                         nan, inf, [1.0] * (nd - 1) + [nan], [-inf] + [1.0] * (nd - 1)],
        "dt": ["x", None, 0, 0.0, [0.1], nan, inf, -inf],
        "accuracy": [3, 0, -2, 10, 4.0, "4", None, [4], 1, 5, 7, 16],
        "pml_width": [-1, [1] * (2 * nd + 1), [1] * (2 * nd - 1), [1] * (2 * nd - 1) + [-1], "x", None, [0.5] * (2 * nd), 1.5,
                      ["x"] * (2 * nd), [], [None] * (2 * nd)],
        "pml_freq": [-1.0, "x", [1.0, 2.0], -inf],
        "max_vel": ["x", [1.0, 2.0], nan, inf, -inf],
        "survey_pad": [-1, [1] * (2 * nd + 1), [1] * (2 * nd - 1), "x", [-1] + [None] * (2 * nd - 1), 1.5, [1.5] * (2 * nd),
                       [None] * (2 * nd - 1) + [-1], ["x"] * (2 * nd), []],
        "origin": [[0] * (nd + 1), [0] * (nd - 1), [-1] + [0] * (nd - 1), [0.5] * nd, ["x"] * nd, "x", 0, [1] + [0] * (nd - 1),
                   [0] * (nd - 1) + [1], [100] * nd],
        "nt": [-1, 4, 2, 1.5, "x", [3]],
        "model_gradient_sampling_interval": [-1, 1.5, "x", None],
        "freq_taper_frac": [-0.1, 1.1, "x", None, float("inf"), float("nan")],
        "time_pad_frac": [-0.1, 1.1, "x", None, float("inf"), float("nan")],
        "callback_frequency": [0, -1, 1.5, "x", None],
        "storage_mode": ["x", "Disk", "", None, 5],
        "python_backend": ["x", "C", 5],
        "forward_callback": [5, "x"],
        "time_taper": ["x", None, 2, 1.5],
    }
    for a, vals in bad.items():
        for v in vals:
            put(a, repr(v), v)

    def srv(k):
        k["survey_pad"] = 1
        k["origin"] = [0] * nd
        for f in fields:
            k.pop(f)
    add("survey_pad", "together with origin", srv)

    def still(k):
        for a in models:
            k[a] = torch.zeros_like(k[a])
        k["max_vel"] = None
    add("models", "no propagation speed at all", still)

    def none(k):
        for a in amps + sl:
            k.pop(a)
    add("nt", "neither amplitudes nor a number of steps", none)

    def nothing(k):
        for a in amps + sl + fields + rl:
            k.pop(a)
        k["nt"] = 3
    add("sources", "no source, receiver or field to tell the dimensions", nothing)

    def neg(k):
        none(k)
        k["nt"] = -1
    add("nt", "negative without amplitudes", neg)
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, torch.Tensor):
        return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a.detach(), b) and a.stride() == b.stride()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or a == b


def snap(kw):
    c = {}
    for k, v in kw.items():
        c[k] = v.detach().clone() if isinstance(v, torch.Tensor) else (copy.deepcopy(v) if isinstance(v, list) else v)
    return c, {k: v._version for k, v in kw.items() if isinstance(v, torch.Tensor)}


def run(t, r, tier, seed):
    (reject if t["kind"] == "reject" else keep)(t, r, tier == "thorough")


def reject(t, r, th):
    cfg, kw = base(t)
    steps = [0]

    def cb(s):
        steps[0] += 1

    kw.update(forward_callback=cb, callback_frequency=1)
    f = func(t["pde"])
    f(**kw)
    if steps[0] != 3:
        r.violate("callback", f"{steps[0]} callbacks in 3 steps")
    for arg, what, change in corruptions(t, cfg, kw, th):
        k = dict(kw)
        change(k)
        if k.get("callback_frequency") == 1 and k.get("forward_callback") is cb:
            pass
        steps[0] = 0
        before, ver = snap(kw)
        try:
            f(**k)
            r.violate(f"accepted:{t['pde']}:{t['nd']}d:{arg}:{what}", f"{arg} ({what}) was accepted", arg=arg, what_=what)
            res = "accepted"
        except Exception as e:  # noqa: BLE001
            res = type(e).__name__
            if steps[0]:
                r.violate(f"late:{t['pde']}:{t['nd']}d:{arg}:{what}", f"{arg} ({what}) was rejected only after {steps[0]} "
                          f"steps: {res}: {e}"[:300], arg=arg, what_=what)
        for x in kw:
            if not same(kw[x], before[x]):
                r.violate(f"modified:{x}", f"{x} modified by a rejected call with {arg} {what}")
        r.outcome((t["pde"], t["nd"], t["backend"], t["acc"], arg, what, res))
        r.evaluations += 1
        r.states += 1
        r.transitions += 1
        r.traces += 1
        r.notes["rejected" if res != "accepted" else "accepted"] = r.notes.get(
            "rejected" if res != "accepted" else "accepted", 0) + 1
    # the call is still accepted, also with integral locations of other types, which mean the same
    for extra in ({}, dict(survey_pad=1)):
        k0 = {a: v for a, v in kw.items() if not extra or a not in cfg.names()} | extra
        ref = f(**k0)
        for dt in (torch.int32, torch.int16, torch.int8, torch.uint8, torch.float64, torch.float32, torch.float16, torch.bfloat16):
            k = {a: (v.to(dt) if "locations" in a else v) for a, v in k0.items()}
            try:
                if any(x.shape != y.shape or not torch.equal(x, y) for x, y in zip(ref, f(**k))):
                    r.violate(f"location type:{dt}", f"locations of type {dt} give other results", extra=extra)
            except Exception as e:  # noqa: BLE001
                r.violate(f"location type:{dt}", f"locations of type {dt} are rejected: {e!r}"[:300], extra=extra)
            r.evaluations += 1


def keep(t, r, th):
    stores = [("device", False), ("disk", True)] if not t["backend"] else [("device", False)]
    if th and not t["backend"]:
        stores += [("cpu", False), ("disk", False), ("device", True)]
    # layouts that internal padding, reordering or batching would leave in place
    sizes = [dict(), dict(S=1, nsrc=1), dict(nt=1), dict(layer=False, order=True), dict(S=1, layer=False, order=True)]
    for size, ratio, (mode, comp), cb, extra in itertools.product(
            sizes, (1, 2), stores, (False, True),
            ({}, dict(survey_pad=1), dict(freq_taper_frac=0.3, time_pad_frac=0.4, time_taper=True))):
        if size and not th and ((mode, comp) != stores[0] or cb and extra):
            continue
        size = dict(size)
        order = size.pop("order", False)
        cfg, kw = base(t, ratio=ratio, **size)
        if order:  # time-major amplitudes, channel-last models and fields
            for k, v in kw.items():
                if isinstance(v, torch.Tensor) and v.ndim > 1:
                    kw[k] = v.movedim(-1, 0).contiguous().movedim(0, -1)
        names = [k for k, v in kw.items() if isinstance(v, torch.Tensor) and v.is_floating_point()]
        if "survey_pad" in extra:
            if ratio == 2 or cb:
                continue
            for k in cfg.names():
                kw.pop(k)
            names = [k for k in names if k in kw]
            extra = dict(survey_pad=[1] * (2 * t["nd"]))
        kw.update(extra, storage_mode=mode, storage_compression=comp, storage_path=t["_scratch"] + "/s")
        if cb:
            kw.update(forward_callback=lambda s: None, callback_frequency=2)
            if not t["backend"]:
                kw.update(backward_callback=lambda s: None)
        wants = [[], names] + ([[k] for k in names] if not cb and not extra and not size else [])
        for want in wants:
            k = {a: (v.detach().clone().requires_grad_(a in want) if a in names else v) for a, v in kw.items()}
            before, ver = snap(k)
            d = dict(size=str(size), order=order, ratio=ratio, store=(mode, comp), callbacks=cb, want=len(want), extra=list(extra))

            def check(when):
                for a in k:
                    if not same(k[a], before[a]):
                        r.violate(f"modified:{t['pde']}:{a}", f"{a} was modified by {when}", **d)
                    elif isinstance(k[a], torch.Tensor) and k[a]._version != ver[a]:
                        r.violate(f"written:{t['pde']}:{a}", f"{a} was written to by {when}", **d)
                    elif isinstance(k[a], torch.Tensor) and (k[a].requires_grad != (a in want) or k[a].grad is not None):
                        r.violate(f"grad:{t['pde']}:{a}", f"the gradient state of {a} was changed by {when}", **d)
                r.states += 1
                r.transitions += 1
            out = func(t["pde"])(**k)
            check("the forward pass")
            # results do not alias the arguments either
            for x in out:
                for a in k:
                    if isinstance(k[a], torch.Tensor) and x.numel() and k[a].numel() and \
                            x.untyped_storage().data_ptr() == k[a].untyped_storage().data_ptr():
                        r.violate(f"alias:{t['pde']}:{a}", f"a result shares memory with {a}", **d)
            r.evaluations += 1
            r.traces += 1
            r.outcome((t["pde"], t["nd"], t["backend"], t["acc"], str(d), str(want)))
            os_ = [x for x in out if x.requires_grad]
            if not os_:
                continue
            second = t["pde"] == "scalar" or bool(t["backend"])
            cot = [dense(tuple(x.shape), i).to(x.dtype).requires_grad_(second) for i, x in enumerate(os_)]
            c0 = [x.detach().clone() for x in cot]
            g = torch.autograd.grad(os_, [k[a] for a in want], cot, allow_unused=True, create_graph=second)
            check("the backward pass")
            g2 = [x for x in g if x is not None and x.requires_grad]
            if second and g2:
                c2 = [dense(tuple(x.shape), i + 5).to(x.dtype) for i, x in enumerate(g2)]
                c20 = [x.clone() for x in c2]
                torch.autograd.grad(g2, [k[a] for a in want] + cot, c2, allow_unused=True)
                check("the double backward pass")
                if any(not torch.equal(x, y) for x, y in zip(c2, c20)):
                    r.violate("cotangent", "gradients passed to the double backward pass were modified", **d)
            if any(not torch.equal(x.detach(), y) for x, y in zip(cot, c0)):
                r.violate("cotangent", "gradients passed to the backward pass were modified", **d)
