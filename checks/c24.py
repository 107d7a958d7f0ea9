"""C24: every way of holding, sharing and spelling the same arguments, in every state of the
process that a caller may have set up, against one canonical call; and the state afterwards."""
import contextlib
import inspect
import itertools
import json
import os
import random
import subprocess
import sys

import numpy
import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, func, unpack

LEVEL = "model_checking"
RULE = "distinct digests of (case, form, outputs)"
BOUNDS = {
    "quick": "4 propagators x 1-3-D x compiled and eager Python backend: every tensor argument x every order of its dimensions in memory, "
             "gap and offset in every dimension (NaN between), every dimension expanded from one element, negated views, subclasses, "
             "parameters; all arguments at once in every form; every pair of arguments of equal shape held in the same tensor (values "
             "and summed gradients), all fields as overlapping windows of one buffer; every parameter omitted or given its default, all "
             "prefixes given by position, sequences as lists, tuples, scalars; absent or empty or zero fields, sources and receivers; every process-wide "
             "setting (default type and device, deterministic mode, automatic mixed precision, threads, random states, working "
             "directory, function and dispatch modes) during the call and its backward pass, and unchanged afterwards; "
             "every covering-array option row under eight forms; every ordered pair of 40-50 calls that differ from one another in one argument "
             "(or in the propagator) within one process",
    "thorough": "as quick with pairs of arguments in different forms, all accuracies, and all pairs of settings",
}
ASSUMPTIONS = ["a form that the call rejects with an exception is not a violation where the documentation does not declare it valid "
               "(negated views, subclasses, meta default device, deterministic mode, dispatch modes, empty kinds, pathlib paths)"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
ROW = dict(acc=4, size="small", pml="a", sub=1, iv=1, store="device", comp=False, cbf=1, cbk="none", batch="all", S=2, nt=4,
           src="all", rec="all", nsrc=2, ign="none", survey="none", init="all", win="none", want="all", thr=2, sign=1,
           layout="plain", dtype="double", vel="given")
RICH = dict(ROW, sub=2, win="both", survey="list", vel="auto", store="disk", batch="mix", iv=2, ign="rec", nt=5)


def combined(task, r):
    for c in compose.cases(task, layout="plain"):
        b = Base(c, None)
        b.start(r)
        for nm, f, _ in together(3):
            b.check(r, f"compose:{nm}", f"every argument {nm}", {k: f for k in b.tensors}, tol=1e-12 if c.cfg.dtype == F64 else 2e-5)
        for nm in ("dtype64", "deterministic", "threads"):
            b.world(r, "compose:", nm)
        r.outcome([c.pde, c.nd, c.row])
        r.sample = c.row


COMBINED = compose.plan(combined, quick=dict(t=2, salt=3))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for nd, pde in itertools.product((3, 2, 1), PDES):
        for acc in (2, 4, 6, 8) if th else (2,) if nd == 3 else (4,):
            for py in (None, "eager"):
                for rich in (False, True):
                    if py and not th and (rich or nd == 3):
                        continue
                    b = dict(pde=pde, nd=nd, acc=acc, py=py, rich=rich)
                    out += [dict(b, kind=k) for k in ("layout", "expand", "alias", "spell", "world")]
                    if th:
                        out.append(dict(b, kind="pairs"))
                if not py or nd < 3 or th:
                    out.append(dict(pde=pde, nd=nd, acc=acc, py=py, rich=False, kind="history"))
    return out


# ---------------------------------------------------------------- forms of one tensor
class Sub(torch.Tensor):
    pass


def junk(x):
    y = torch.empty_like(x, memory_format=torch.contiguous_format)
    return y.fill_(float("nan")) if x.is_floating_point() else y.fill_(10**6 + 1)


def gap(d):
    return lambda x: torch.stack([x, junk(x)], d + 1).select(d + 1, 0)


def offset(d):
    return lambda x: torch.cat([junk(x), x, junk(x)], d).narrow(d, x.shape[d], x.shape[d])


def order(p):
    inv = [p.index(i) for i in range(len(p))]
    return lambda x: x.permute(*p).contiguous().permute(*inv)


def forms(nd):
    """(name, form, may be rejected)"""
    out = [(f"order{''.join(map(str, p))}", order(p), False) for p in itertools.permutations(range(nd)) if list(p) != list(range(nd))]
    out += [(f"gap{d}", gap(d), False) for d in range(nd)]
    out += [(f"offset{d}", offset(d), False) for d in range(nd)]
    if nd == 4:
        out.append(("channels_last", lambda x: x.contiguous(memory_format=torch.channels_last), False))
    out.append(("negated", lambda x: torch._neg_view(-x), True))
    out.append(("subclass", lambda x: x.as_subclass(Sub), True))
    return out


def together(n):
    """Forms applied to every argument at once."""
    def last(f):
        return lambda x: f(x.ndim - 1)(x)
    out = [("reversed order", lambda x: order(list(range(x.ndim))[::-1])(x), False),
           ("shots innermost", lambda x: order([*range(1, x.ndim), 0])(x), False),
           ("gaps", last(gap), False), ("offsets", last(offset), False), ("first gaps", lambda x: gap(0)(x), False),
           ("channels last", lambda x: x.contiguous(memory_format=torch.channels_last) if x.ndim == 4 else order([*range(1, x.ndim), 0])(x), False),
           ("negated", lambda x: torch._neg_view(-x), True), ("subclass", lambda x: x.as_subclass(Sub), True)]
    return out[:n] if n else out


# ---------------------------------------------------------------- the canonical call
class Base:
    def __init__(self, c, py):
        self.c = c
        self.over = {"python_backend": py} if py else {}
        lv = c.leaves()
        kw = c.kwargs(lv, **self.over)
        self.tensors = [k for k, v in kw.items() if isinstance(v, torch.Tensor)]
        self.floats = [k for k in self.tensors if kw[k].is_floating_point()]

    def call(self, change, spell=None, positional=0):
        """Leaves, arguments, outputs with the named arguments changed."""
        c = self.c
        lv = c.leaves()
        kw = c.kwargs(lv, **self.over)
        for k, f in change.items():
            if k in kw:
                kw[k] = f(kw[k])
        if spell:
            kw = spell(kw)
        f = func(c.pde)
        args = []
        if positional:
            sig = inspect.signature(f)
            for k in list(sig.parameters)[:positional]:
                args.append(kw.pop(k) if k in kw else sig.parameters[k].default)
        fl, rec = unpack(c.cfg, f(*args, **kw))
        o = G.outs(fl, rec)
        keep = [("field", x) for x in fl] + [("rec", x) for x in rec if x in c.rl]
        return lv, {k: o[k] for k in keep}

    def both(self, change, spell=None, positional=0):
        old = torch.get_num_threads()
        torch.set_num_threads(self.c.row["thr"])
        try:
            lv, o = self.call(change, spell, positional)
            cot = {k: w if w.shape == o[k].shape else G.dense(tuple(o[k].shape), 5.0).to(w.dtype) for k, w in self.c.cot.items() if k in o}
            g = G.vjp(lv, o, cot, self.c.want)
            return {k: v.detach() for k, v in o.items()}, g
        finally:
            torch.set_num_threads(old)

    def start(self, r):
        with deterministic():  # PyTorch sets an environment variable at the first use
            pass
        self.want = self.both({})
        r.states += self.c.S
        r.transitions += self.c.S * self.c.nt * self.c.ratio * 2
        r.outcome([self.c.pde, self.c.nd, self.c.row, len(self.over)] + [round(float(x.norm()), 6) for x in self.want[0].values()])

    def compare(self, r, key, what, got, want=None, tol=1e-12, otol=None):
        o, g = got
        o2, g2 = want or self.want
        c = self.c
        for k, w in o2.items():
            r.close(f"{key}:out:{k[0]}:{k[1]}", o[k].as_subclass(torch.Tensor), w, otol or tol, f"{what}: {k[0]} {k[1]}",
                    scale=max(1e-3, float(w.abs().max()) if w.numel() else 0), options=c.row)
        for k, w in g2.items():
            x = g.get(k)
            if x is None and w is None:
                continue
            w = torch.zeros_like(x) if w is None else w
            x = torch.zeros_like(w) if x is None else x
            r.close(f"{key}:grad:{k[0]}:{k[1]}", x.as_subclass(torch.Tensor), w, tol, f"{what}: gradient of {k[0]} {k[1]}",
                    scale=max(1e-3, float(w.abs().max()) if w.numel() else 0), options=c.row)
        r.evaluations += 1
        r.traces += c.S

    def check(self, r, key, what, change, spell=None, positional=0, may=False, want=None, tol=1e-12):
        r.states += 1
        r.transitions += self.c.nt * self.c.ratio
        try:
            got = self.both(change, spell, positional)
        except Exception as e:  # noqa: BLE001
            if not may:
                r.violate(f"{key}:raises", f"{what}: {e!r}", options=self.c.row)
            else:
                n = f"rejected {key.split(':')[1] if ':' in key else key}"
                r.notes[n] = r.notes.get(n, 0) + 1
            return None
        self.compare(r, key, what, got, want, tol)
        r.notes["accepted"] = r.notes.get("accepted", 0) + 1
        return got

    # ------------------------------------------------------------ process-wide state
    def world(self, r, key, *names):
        before = snapshot()
        may = any(WORLDS[n][1] for n in names)
        what = "with " + " and ".join(names)
        r.states += 1
        r.transitions += self.c.nt * self.c.ratio * 2
        lv = self.c.leaves()  # made outside
        kw = self.c.kwargs(lv, **self.over)
        if "elsewhere" in names:
            kw["storage_path"] = os.path.abspath("store")
        try:
            with contextlib.ExitStack() as st:
                for n in names:
                    st.enter_context(WORLDS[n][0]())
                inside = snapshot()
                fl, rec = unpack(self.c.cfg, func(self.c.pde)(**kw))
                o = G.outs(fl, rec)
                o = {k: o[k] for k in self.want[0]}
                self.same_state(r, key, what + ", the call", inside)
                keys = [k for k in lv if self.c.want is None or k in self.c.want]
                on = [k for k in o if o[k].requires_grad]
                g = {}
                if on:
                    g = dict(zip(keys, torch.autograd.grad([o[k] for k in on], [lv[k] for k in keys],
                                                           [self.c.cot[k].to(o[k].dtype) for k in on], allow_unused=True)))
                self.same_state(r, key, what + ", the backward pass", inside)
        except Exception as e:  # noqa: BLE001
            if not may:
                r.violate(f"{key}world:{names}:raises", f"{what}: {e!r}", options=self.c.row)
            else:
                n = f"rejected {names}"
                r.notes[n] = r.notes.get(n, 0) + 1
        else:
            o = {k: v.detach() for k, v in o.items()}
            for k, w in self.want[0].items():
                if o[k].dtype != w.dtype or o[k].device != w.device:
                    r.violate(f"{key}world:{names}:type", f"{what}: {k} is {o[k].dtype} on {o[k].device}", options=self.c.row)
                    return
            self.compare(r, f"{key}world:{names}", what, (o, g), tol=1e-12 if self.c.cfg.dtype == F64 else 2e-5)
        self.same_state(r, key, what + ", afterwards", before)

    def same_state(self, r, key, what, before):
        after = snapshot()
        for k, v in before.items():
            if after[k] != v:
                r.violate(f"{key}state:{k}", f"{what}: the {k} of the process changed", options=self.c.row)


def snapshot():
    return {"default dtype": torch.get_default_dtype(), "default device": str(torch.get_default_device()),
            "number of threads": torch.get_num_threads(), "interop threads": torch.get_num_interop_threads(),
            "deterministic mode": (torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()),
            "grad mode": (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled()),
            "mixed precision": (torch.is_autocast_enabled("cpu"), str(torch.get_autocast_dtype("cpu"))),
            "matmul precision": torch.get_float32_matmul_precision(),
            "torch random state": hash(torch.default_generator.get_state().numpy().tobytes()),
            "numpy random state": hash(numpy.random.get_state()[1].tobytes()), "random state": hash(random.getstate()),
            "numpy error state": str(numpy.geterr()), "working directory": os.getcwd(), "environment": hash(tuple(sorted(os.environ.items()))),
            "module path": tuple(sys.path), "file mode mask": mask()}


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


@contextlib.contextmanager
def setting(get, put, value):
    old = get()
    put(value)
    try:
        yield
    finally:
        put(old)


@contextlib.contextmanager
def cwd():
    old = os.getcwd()
    os.makedirs("elsewhere", exist_ok=True)
    os.chdir("elsewhere")
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def deterministic():
    torch.use_deterministic_algorithms(True)
    try:
        yield
    finally:
        torch.use_deterministic_algorithms(False)


@contextlib.contextmanager
def seeded():
    st = torch.get_rng_state()
    torch.manual_seed(987654321)
    try:
        yield
    finally:
        torch.set_rng_state(st)


class FMode(torch.overrides.TorchFunctionMode):
    def __torch_function__(self, f, types, args=(), kwargs=None):
        return f(*args, **(kwargs or {}))


def dmode():
    from torch.utils._python_dispatch import TorchDispatchMode

    class D(TorchDispatchMode):
        def __torch_dispatch__(self, f, types, args=(), kwargs=None):
            return f(*args, **(kwargs or {}))
    return D()


def dt(x):
    return lambda: setting(torch.get_default_dtype, torch.set_default_dtype, x)


WORLDS = {  # name: (context, may be rejected)
    "dtype64": (dt(torch.float64), False), "dtype32": (dt(torch.float32), False), "dtype16": (dt(torch.bfloat16), False),
    "default device cpu": (lambda: torch.device("cpu"), False), "default device meta": (lambda: torch.device("meta"), True),
    "deterministic": (deterministic, True), "mixed precision": (lambda: torch.autocast("cpu", dtype=torch.bfloat16), False),
    "threads": (lambda: setting(torch.get_num_threads, torch.set_num_threads, 5), False),
    "one thread": (lambda: setting(torch.get_num_threads, torch.set_num_threads, 1), False),
    "matmul precision": (lambda: setting(torch.get_float32_matmul_precision, torch.set_float32_matmul_precision, "medium"), False),
    "random state": (seeded, False), "elsewhere": (cwd, False),
    "function mode": (FMode, False), "dispatch mode": (dmode, True),
    "numpy errors": (lambda: numpy.errstate(all="raise"), False),
    "file mode mask": (lambda: setting(mask, os.umask, 0o77), False),
}


# ---------------------------------------------------------------- kinds of tasks
def layout(b, r):
    c = b.c
    kw = c.kwargs(c.leaves(), **b.over)
    for k in b.tensors:
        for nm, f, may in forms(kw[k].ndim):
            b.check(r, f"layout:{nm.rstrip('0123456789')}:{k}", f"{k} held as {nm}", {k: f}, may=may)
            r.outcome([c.pde, c.nd, c.row, k, nm])
    for nm, f, may in together(0):
        b.check(r, f"together:{nm}", f"every argument: {nm}", {k: f for k in b.tensors}, may=may)
    # parameters
    lv = {k: torch.nn.Parameter(v.detach()) for k, v in c.leaves().items()}
    fl, rec = unpack(c.cfg, func(c.pde)(**c.kwargs(lv, **b.over)))
    o = G.outs(fl, rec)
    o = {k: o[k] for k in b.want[0]}
    b.compare(r, "parameters", "inputs that are parameters", ({k: v.detach() for k, v in o.items()}, G.vjp(lv, o, c.cot, c.want)))


def pairs(b, r):
    c = b.c
    kw = c.kwargs(c.leaves(), **b.over)
    names = b.tensors if len(b.tensors) < 14 else [k for i, k in enumerate(b.tensors) if i % (len(b.tensors) // 12) == 0]
    for x, y in itertools.combinations(names, 2):
        fx = [f for f in forms(kw[x].ndim) if not f[2]][:: 3]
        fy = [f for f in forms(kw[y].ndim) if not f[2]][1:: 3]
        for (n1, f, _), (n2, g, _) in itertools.product(fx, fy):
            b.check(r, f"pair:{x}:{y}", f"{x} held as {n1} and {y} as {n2}", {x: f, y: g})


def expand(b, r):
    """Every dimension of every argument constant: expanded from one element or stored."""
    c = b.c
    kw = c.kwargs(c.leaves(), **b.over)
    for k in b.tensors:
        x = kw[k]
        dims = range(x.ndim) if x.is_floating_point() else [0]
        for n in (1, 2):
            for ds in itertools.combinations(dims, n):
                if all(x.shape[d] == 1 for d in ds):
                    continue

                def one(y):
                    for d in ds:  # noqa: B023
                        y = y.narrow(d, 0, 1)
                    return y.expand_as(x)  # noqa: B023
                want = b.both({k: lambda y: one(y).clone(memory_format=torch.contiguous_format)})  # noqa: B023
                b.check(r, f"expand:{k}", f"{k} expanded over dimensions {ds}", {k: one}, want=want)
                r.outcome([c.pde, c.nd, c.row, k, ds, "expand"])


def alias(b, r):
    c = b.c
    kw = c.kwargs(c.leaves(), **b.over)
    todo = [(x, y) for x, y in itertools.combinations(b.tensors, 2) if kw[x].shape == kw[y].shape and kw[x].dtype == kw[y].dtype]
    if len(todo) > 60:  # neighbours and first-with-all are kept
        seen = [(x, y) for x, y in todo if b.tensors.index(y) - b.tensors.index(x) == 1 or x in (todo[0][0], b.tensors[0])]
        todo = seen + [p for i, p in enumerate(todo) if p not in seen and i % (1 + len(todo) // 30) == 0]

    def share(copy):
        def f(p):
            def g(kw):
                kw[p[1]] = kw[p[0]].clone() if copy else kw[p[0]]
                return kw
            return g
        return f
    loose = 1e-12
    for p in todo:
        try:
            want = b.both({}, share(True)(p))
        except Exception as e:  # noqa: BLE001
            r.notes["not a valid call"] = r.notes.get("not a valid call", 0) + 1
            r.outcome([p, type(e).__name__])
            continue
        b.check(r, f"alias:{p[0]}:{p[1]}", f"{p[0]} and {p[1]} are the same tensor", {}, share(False)(p), want=want, tol=loose)
        r.outcome([c.pde, c.nd, c.row, p, "alias"])
    # all fields in one tensor; all fields as overlapping windows of one buffer
    names = [k for k in c.cfg.names() if k in kw]
    if len(names) > 1:
        def same(copy):
            def g(kw):
                for k in names[1:]:
                    kw[k] = kw[names[0]].clone() if copy else kw[names[0]]
                return kw
            return g
        b.check(r, "alias:all", "all fields are the same tensor", {}, same(False), want=b.both({}, same(True)))

        def windows(copy):
            def g(kw):
                x = kw[names[0]]
                n = x.shape[-1]
                buf = torch.cat([x, x.flip(-1), x * 0.5], -1)
                for i, k in enumerate(names):
                    y = buf[..., i % (2 * n): i % (2 * n) + n]
                    kw[k] = y.clone(memory_format=torch.contiguous_format) if copy else y
                return kw
            return g
        b.check(r, "alias:windows", "all fields are overlapping windows of one buffer", {}, windows(False), want=b.both({}, windows(True)))
    # one call's outputs as its next inputs, without copies, and the same call again on the same tensors
    lv = c.leaves()
    k1 = c.kwargs(lv, **b.over)
    with torch.no_grad():
        o1 = func(c.pde)(**k1)
        k2 = {**k1, **dict(zip(c.cfg.names(), o1))}
        o2 = func(c.pde)(**k2)
        o3 = func(c.pde)(**{**k1, **{k: v.clone() for k, v in zip(c.cfg.names(), o1)}})
        o4 = func(c.pde)(**k1)
    if c.row["survey"] == "none":
        for i, (x, y) in enumerate(zip(o2, o3)):
            r.close("alias:chained", x, y, 1e-14, f"outputs used as inputs without copying: output {i}", options=c.row)
    for i, (x, y) in enumerate(zip(o1, o4)):
        r.close("alias:again", x, y, 1e-14, f"the same call repeated: output {i}", options=c.row)


def spell(b, r):
    c = b.c
    f = func(c.pde)
    sig = inspect.signature(f)
    kw = c.kwargs(c.leaves(), **b.over)

    def put(**new):
        def g(kw):
            kw = dict(kw)
            kw.update(new)
            return kw
        return g

    def drop(*ks):
        return lambda kw: {k: v for k, v in kw.items() if k not in ks}
    # defaults
    free = [k for k, p in sig.parameters.items() if k not in kw and p.default is not inspect.Parameter.empty]
    for k in free:
        b.check(r, f"default:{k}", f"{k} given as its default", {}, put(**{k: sig.parameters[k].default}))
    b.check(r, "default:all", "all defaults given", {}, put(**{k: sig.parameters[k].default for k in free}))
    for k, p in sig.parameters.items():
        if k in kw and p.default is not inspect.Parameter.empty and kw[k] is not None and kw[k] == p.default \
                if not isinstance(kw.get(k), torch.Tensor) else False:
            b.check(r, f"default:{k}", f"{k} left out, when it is the default", {}, drop(k))
    for k in ("max_vel", "pml_freq", "survey_pad", "origin", "nt"):
        if k in kw and kw[k] is None:
            b.check(r, f"default:{k}", f"{k} left out instead of None", {}, drop(k))
    # positions
    for n in range(1, len(sig.parameters) + 1):
        b.check(r, f"position:{n}", f"the first {n} arguments given by position", {}, positional=n)
    order_ = list(kw)
    b.check(r, "keyword order", "keywords in the opposite order", {}, lambda k: {n: k[n] for n in reversed(order_)})
    # sequences
    for k in ("grid_spacing", "pml_width", "survey_pad", "origin"):
        v = kw.get(k)
        if isinstance(v, (list, tuple)):
            for t in (list, tuple):
                b.check(r, f"sequence:{k}", f"{k} as a {t.__name__}", {}, put(**{k: t(v)}))
            b.check(r, f"sequence:{k}", f"{k} as a torch.Size or array", {},
                    put(**{k: torch.Size(v) if all(isinstance(x, int) for x in v) else numpy.array(v)}), may=True)
    one = b.both({}, put(grid_spacing=[1.0] * c.nd))
    for v in (1.0, 1, [1] * c.nd, (1.0,) * c.nd, numpy.float64(1.0)):
        b.check(r, "sequence:grid_spacing", f"grid_spacing {v!r} for {[1.0] * c.nd}", {}, put(grid_spacing=v), want=one)
    nofields = drop(*[k for k in c.cfg.names() if k in kw])
    one = b.both({}, lambda k: put(pml_width=[2] * (2 * c.nd))(nofields(k)))
    for v in (2, (2,) * (2 * c.nd)):
        b.check(r, "sequence:pml_width", f"pml_width {v!r} for every side", {}, lambda k: put(pml_width=v)(nofields(k)),  # noqa: B023
                want=one)
    if c.row["survey"] == "none" and c.row["init"] == "none" or c.row["survey"] == "list":
        ks = [k for k in c.cfg.names() if k in kw]
        d = drop(*ks)
        one = b.both({}, lambda k: put(survey_pad=[1] * (2 * c.nd))(d(k)))
        for v in (1, (1,) * (2 * c.nd)):
            b.check(r, "sequence:survey_pad", f"survey_pad {v!r} for every side", {}, lambda k: put(survey_pad=v)(d(k)), want=one)  # noqa: B023
    # numbers
    for k in ("dt", "max_vel", "pml_freq", "freq_taper_frac", "time_pad_frac"):
        if kw.get(k) is not None:
            b.check(r, f"number:{k}", f"{k} as a numpy number", {}, put(**{k: numpy.float64(kw[k])}))
    one = b.both({}, put(max_vel=2.0, pml_freq=1.0))
    b.check(r, "number:ints", "max_vel and pml_freq as int", {}, put(max_vel=2, pml_freq=1), want=one)
    one = b.both({}, put(pml_freq=25.0))
    b.check(r, "default:pml_freq", "pml_freq None for its documented default", {}, put(pml_freq=None), want=one)
    if c.pde != "elastic":
        one = b.both({}, put(max_vel=float(c.models["v"].abs().max())))
        b.check(r, "default:max_vel", "max_vel None for the greatest wavespeed", {}, put(max_vel=None), want=one)
    # the number of steps, given as well
    b.check(r, "nt", "nt given along with the amplitudes", {}, put(nt=c.nt), may=True)
    # zero, absent and empty
    names = [k for k in c.cfg.names() if k in kw]
    for ks in [[k] for k in names] + [names]:
        if len(ks) == len(names) and c.row["survey"] == "origin":
            continue
        want = b.both({k: lambda x: x * 0 for k in ks})
        if c.row["survey"] in ("list", "pad") and len(ks) == len(names):
            b.check(r, "absent:fields", "fields absent for zero", {}, drop(*ks), want=(want[0], {}), may=True)
        else:
            b.check(r, f"absent:{ks[0] if len(ks) == 1 else 'fields'}", f"{ks} absent for zero", {}, drop(*ks), want=(want[0], {
                k: v for k, v in want[1].items() if k[1] not in ks}))
    for k in c.slocs:
        s = "_" + k if k else ""
        if len(c.slocs) == 1:
            continue
        A, L = "source_amplitudes" + s, "source_locations" + s
        want = b.both({A: lambda x: x * 0})
        w = (want[0], {q: v for q, v in want[1].items() if q != ("amp", k)})
        if c.row["survey"] == "none":
            b.check(r, f"absent:{A}", f"{A} absent for zero", {}, drop(A, L), want=w, tol=1e-10)
        if c.row["survey"] == "none":
            b.check(r, f"empty:{A}", f"{A} empty for zero", {A: lambda x: x[:, :0], L: lambda x: x[:, :0]}, may=True, want=w, tol=1e-10)
    for k in c.rl:
        L = {"": "receiver_locations", "bg": "bg_receiver_locations"}.get(k, "receiver_locations_" + k)

        def norec(kw):
            kw = dict(kw)
            kw.pop(L)  # noqa: B023
            return kw

        def empty(kw):
            kw = dict(kw)
            kw[L] = kw[L][:, :0]  # noqa: B023
            return kw
        if c.row["survey"] != "none":
            continue
        for nm, sp, may in (("absent", norec, False), ("empty", empty, True)):
            try:
                lv, o = b.call({}, sp)
            except Exception as e:  # noqa: BLE001
                if not may:
                    r.violate(f"{nm}:{L}:raises", f"{L} {nm}: {e!r}", options=c.row)
                continue
            lv2, o2 = b.call({})
            if o["rec", k].numel():
                r.violate(f"{nm}:{L}", f"{L} {nm}: recordings of size {tuple(o['rec', k].shape)}", options=c.row)
            o.pop(("rec", k))
            o2.pop(("rec", k))
            cot = {q: v for q, v in c.cot.items() if q in o}
            g, g2 = G.vjp(lv, o, cot, c.want), G.vjp(lv2, o2, cot, c.want)
            b.compare(r, f"{nm}:{L}", f"{L} {nm}", ({q: v.detach() for q, v in o.items()}, g),
                      ({q: v.detach() for q, v in o2.items()}, g2), 1e-11)
    # models with or without a dimension for shots
    for k in c.models:
        if c.models[k].ndim == c.nd:
            b.check(r, f"shots:{k}", f"{k} with a dimension of length one for shots", {k: lambda x: x[None]})
            b.check(r, f"shots:{k}", f"{k} repeated for every shot", {k: lambda x: x.expand(c.S, *x.shape)}, tol=1e-11)
        else:
            want = b.both({k: lambda x: x[:1].expand(c.S, *x.shape[1:]).clone()})
            b.check(r, f"shots:{k}", f"{k} shared by all shots", {k: lambda x: x[0]}, want=want, tol=1e-11)
            b.check(r, f"shots:{k}", f"{k} with one shot for all", {k: lambda x: x[:1]}, want=want, tol=1e-11)
    # paths
    if c.row["store"] == "disk" and not b.over:
        import pathlib
        for p, may in (("./store", False), ("store/", False), (os.path.abspath("store"), False), ("store/../store//x y/é", False),
                       (pathlib.Path("store"), True)):
            if not isinstance(p, pathlib.Path):
                os.makedirs(p, exist_ok=True)
            b.check(r, "path", f"storage_path {p!r}", {}, put(storage_path=p), may=may)
    r.outcome([c.pde, c.nd, c.row, "spell"])


def world(b, r, th):
    for n in WORLDS:
        b.world(r, "", n)
        r.outcome([b.c.pde, b.c.nd, b.c.row, n])
    for x, y in itertools.combinations([n for n in WORLDS if not n.startswith("default")], 2) if th else \
            (("dtype64", "deterministic"), ("dtype16", "mixed precision"), ("elsewhere", "threads")):
        b.world(r, "", x, y)


def near(x, y, tol):
    return x[0] == y[0] and all(u == v or abs(u - v) <= tol * max(x[1], y[1]) for u, v in zip(x[1:], y[1:]))


def history(t, r):
    """Every call of an alphabet in two fresh processes that execute it in opposite orders, so that each
    of any two calls comes first in one of them."""
    code = ("import sys,json;sys.path[:0]=[%r,%r];from vlib import history;history.main(%r,%r,%r,sys.argv[1]=='1')"
            % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ["VERIF_STAGE"], t["pde"], t["nd"], t["py"]))
    got = []
    for rev in "01":
        p = subprocess.run([sys.executable, "-s", "-c", code, rev], capture_output=True, text=True, timeout=600)
        if p.returncode:
            r.violate("history:crash", f"a process executing a sequence of calls ended with {p.returncode}", stderr=p.stderr[-3000:])
            return
        got.append(json.loads(p.stdout))
    a, b = got
    r.sample = dict(kind="history", pde=t["pde"], nd=t["nd"], py=t["py"], calls=list(a))
    for k in a:
        r.states += 2
        r.transitions += 2 * len(a[k])
        r.evaluations += 1
        r.outcome([t["pde"], t["nd"], t["py"], k, a[k]])
        if "raises" in a[k] or "raises" in b[k]:
            r.violate(f"history:{k}:raises", f"{k}: {a[k].get('raises')} / {b[k].get('raises')}")
        elif any(not near(a[k][x], b[k][x], 1e-4 if k == "single" else 1e-9) for x in a[k]):
            r.violate(f"history:{k}", f"the call '{k}' gives other values after the calls that precede it in the alphabet than after those "
                      "that follow it", differing=[x for x in a[k] if a[k][x] != b[k][x]], calls=list(a))
    r.traces += len(a) * (len(a) - 1) // 2
    r.notes["ordered pairs of calls"] = r.notes.get("ordered pairs of calls", 0) + len(a) * (len(a) - 1)


def run(t, r, tier, seed):
    if t["kind"] == "history":
        history(t, r)
        return
    row = dict(RICH if t["rich"] else ROW, acc=t["acc"])
    if t["py"]:
        row["store"] = "device"
    c = compose.Case(t["pde"], t["nd"], row, 3)
    r.sample = dict(kind=t["kind"], row=row, py=t["py"])
    b = Base(c, t["py"])
    b.start(r)
    if t["kind"] == "world":
        world(b, r, tier == "thorough")
    else:
        {"layout": layout, "expand": expand, "alias": alias, "spell": spell, "pairs": pairs}[t["kind"]](b, r)
