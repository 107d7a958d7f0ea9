"""A fixed alphabet of calls, each of which differs from a base call in one argument, executed
one after the other in one process: run by checks.c24 in fresh processes in opposite orders."""
import json
import sys
import warnings


def alphabet(pde, nd, py):
    """Ordered names and the call each stands for: name -> () -> summary (size, norm, projection) of all outputs and gradients."""
    import torch
    from vlib import compose
    from vlib import grad as G
    from vlib.impl import func, unpack

    row = dict(acc=4, size="small", pml="a", sub=2, iv=1, store="device", comp=False, cbf=1, cbk="none", batch="shared", S=2, nt=5,
               src="all", rec="all", nsrc=2, ign="none", survey="none", init="none", win="none", want="all", thr=1, sign=1,
               layout="plain", dtype="double", vel="given")
    out = {}

    def run(pde, change, nd=nd, **over):
        c = compose.Case(pde, nd, dict(row, **over), 3)
        lv = c.leaves()
        kw = c.kwargs(lv, **({"python_backend": py} if py else {}))
        change(kw)
        fl, rec = unpack(c.cfg, func(pde)(**kw))
        o = G.outs(fl, rec)
        on = [k for k in o if o[k].requires_grad]
        leaves = {k: v for k, v in lv.items() if v.requires_grad}
        g = torch.autograd.grad([o[k] for k in on], list(leaves.values()),
                                [G.dense(tuple(o[k].shape), 5.0).to(o[k].dtype) for k in on], allow_unused=True) if on else ()
        d = {}
        for k, v in [*o.items(), *(((("grad",) + tuple(k)), v) for k, v in zip(leaves, g))]:
            if v is None:
                d[str(k)] = [0, 0.0, 0.0]
            else:
                x = v.detach().double()
                d[str(k)] = [x.numel(), float(x.norm()), float((x * G.dense(tuple(x.shape), 9.0)).sum())]
        return d

    def put(name, f, pde=pde, **over):
        def change(kw):
            x = f(kw)
            if x:
                kw.update(x)
        out[name] = lambda: run(pde, change, **over)

    put("base", lambda kw: None)
    h = lambda kw: list(kw["grid_spacing"]) if isinstance(kw["grid_spacing"], (list, tuple)) else [kw["grid_spacing"]] * nd  # noqa: E731
    for d in range(nd):
        put(f"spacing {d}", lambda kw, d=d: {"grid_spacing": [x * (1.02 if i == d else 1) for i, x in enumerate(h(kw))]})
    put("dt", lambda kw: {"dt": kw["dt"] * 0.99})
    put("dt ratio", lambda kw: {"dt": kw["dt"] * 1.7})
    put("dt sign", lambda kw: {"dt": -kw["dt"]})
    put("frequency", lambda kw: {"pml_freq": kw["pml_freq"] * 1.3})
    put("frequency 0", lambda kw: {"pml_freq": 0.0})
    put("max_vel", lambda kw: {"max_vel": kw["max_vel"] * 0.99})
    put("max_vel absent", lambda kw: {"max_vel": None})
    for a in (2, 6, 8):
        put(f"accuracy {a}", lambda kw, a=a: {"accuracy": a})
    put("widths reversed", lambda kw: {"pml_width": list(kw["pml_width"])[::-1]})
    for i in range(2 * nd):
        put(f"width {i}", lambda kw, i=i: {"pml_width": [w + (j == i) for j, w in enumerate(kw["pml_width"])]})
    put("widths 0", lambda kw: {"pml_width": 0})
    names = [k for k in compose.Case(pde, nd, row, 3).kwargs(compose.Case(pde, nd, row, 3).leaves()) if not k.startswith("python")]
    kw0 = compose.Case(pde, nd, row, 3).kwargs(compose.Case(pde, nd, row, 3).leaves())
    for k in names:
        v = kw0[k]
        if not isinstance(v, torch.Tensor):
            continue
        if v.is_floating_point():
            put(f"{k} scaled", lambda kw, k=k: {k: kw[k] * 0.97})
        elif k.endswith("locations") or "locations" in k:
            put(f"{k} reordered", lambda kw, k=k: {k: kw[k].flip(0)})
            put(f"{k} ignored", lambda kw, k=k: {k: torch.where(torch.arange(kw[k].shape[1])[None, :, None] == 0,
                                                               torch.tensor(-(1 << 31)), kw[k])})
    put("per shot", lambda kw: None, batch="all")
    put("single", lambda kw: None, dtype="float")
    put("one shot", lambda kw: None, S=1)
    put("longer", lambda kw: None, nt=6)
    put("other size", lambda kw: None, size="big")
    put("survey", lambda kw: {"survey_pad": 1})
    put("windows", lambda kw: {"freq_taper_frac": 0.4, "time_pad_frac": 0.5, "time_taper": True})
    put("frequency taper", lambda kw: {"freq_taper_frac": 0.9})
    put("time padding", lambda kw: {"time_pad_frac": 0.5})
    put("interval", lambda kw: {"model_gradient_sampling_interval": 2})
    if py:
        put("compiled", lambda kw: {"python_backend": False})
    else:
        put("eager", lambda kw: {"python_backend": "eager"})
        put("host", lambda kw: {"storage_mode": "cpu"})
        put("disk", lambda kw: {"storage_mode": "disk"})
        put("no storage", lambda kw: {"storage_mode": "none"})
        put("compressed", lambda kw: {"storage_compression": True})
    put("callbacks", lambda kw: {"forward_callback": lambda s: None, "callback_frequency": 2})
    put("fields", lambda kw: None, init="all")
    for p in compose_pdes():
        if p != pde:
            put(f"other propagator {p}", lambda kw: None, pde=p)
    return out


def compose_pdes():
    return ("scalar", "scalar_born", "acoustic", "elastic")


def main(pde, nd, py, reverse):
    import torch
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    calls = alphabet(pde, nd, py)
    res = {}
    for k in list(calls)[::-1] if reverse else list(calls):
        try:
            res[k] = calls[k]()
        except Exception as e:  # noqa: BLE001
            res[k] = {"raises": repr(e)[:300]}
    json.dump(res, sys.stdout)
