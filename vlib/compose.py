"""Interactions of options: complete propagations whose options are taken from covering
arrays (every combination of values of every 2 or 3 options occurs), with an oracle that
composes the documented parts: survey region, resampling of the amplitudes, the reference
transition system with gradient sampling, resampling of the recordings."""
import itertools

import torch

from vlib import ca
from vlib import grad as G
from vlib import ref as R
from vlib.impl import F64, IGNORE, Cfg, dense, func, kwargs_for, unpack

PDES = ("scalar", "scalar_born", "acoustic", "elastic")
FACTORS = {
    "acc": (2, 4, 6, 8),
    "size": ("small", "big"),
    "pml": ("none", "all", "a", "b"),
    "sub": (1, 2, 3),
    "iv": (1, 2, 3),
    "store": ("device", "cpu", "disk", "none"),
    "comp": (False, True),
    "cbf": (1, 2, 3, 9),
    "cbk": ("none", "f", "b", "fb"),
    "batch": ("shared", "all", "mix"),
    "S": (1, 2, 3),
    "nt": (1, 4, 5, 6),
    "src": ("all", "one", "none"),
    "rec": ("all", "one", "none"),
    "nsrc": (1, 2),
    "ign": ("none", "src", "rec"),
    "survey": ("none", "pad", "list", "origin"),
    "init": ("none", "some", "all"),
    "win": ("none", "freq", "pad", "taper", "both"),
    "want": ("all", "models", "amps", "init", "one"),
    "thr": (1, 3),
    "sign": (1, -1),
    "layout": ("plain", "strided", "permuted"),
    "dtype": ("double", "double", "float"),
    "vel": ("given", "auto"),
}


def rows(t, salt=0):
    names = list(FACTORS)
    return [{k: FACTORS[k][i] for k, i in zip(names, row)}
            for row in ca.rows([len(v) for v in FACTORS.values()], t, salt)]


def tasks(kinds=("compose",), pdes=PDES, dims=(1, 2, 3), t=2, salt=0, parts=2, t3=(), **fix):
    """Task list: `parts` tasks per propagator and dimension."""
    out = []
    for pde, nd in itertools.product(pdes, dims):
        tt = 3 if nd in t3 else t
        p = parts * (4 if tt == 3 else 1)
        out += [dict(kind="compose", pde=pde, nd=nd, t=tt, salt=salt + (0 if tt == 3 else PDES.index(pde)), part=i, parts=p,
                     fix=fix) for i in range(p)]
    out.sort(key=lambda d: -d["nd"])
    return out


def plan(rel, quick=None, thorough=None, **both):
    """The COMBINED attribute of a check: (tier -> tasks and their description, relation)."""
    def make(tier):
        kw = dict(dict(t=3), **both)
        kw.update((quick if tier == "quick" else thorough) or {})
        out = tasks(**kw)
        t3 = [t for t in out if t["t"] == 3]
        text = []
        for t, ts in ((3, t3), (2, [t for t in out if t["t"] == 2])):
            if ts:
                n = len(rows(t, ts[0]["salt"]))
                where = sorted({f"{x['pde']} {x['nd']}-D" for x in ts})
                text.append(f"{n} option assignments covering every combination of values of every {t} of {len(FACTORS)} "
                            f"options ({', '.join(where)}" + (f"; fixed: {ts[0]['fix']})" if ts[0]["fix"] else ")"))
        return out, "combined options: " + "; ".join(text)
    return make, rel


def reference(groups, outputs=True, **force):
    return lambda t, r: against_reference(t, r, groups, outputs, **force)


def cases(task, only=None, **force):
    fix = {**task.get("fix", {}), **force}
    seen = set()
    for i, row in enumerate(rows(task["t"], task["salt"] % (2 if task["t"] == 3 else 8))):
        if i % task["parts"] != task["part"]:
            continue
        if only and not only({**row, **fix}):
            continue
        c = Case(task["pde"], task["nd"], {**row, **fix}, i)
        key = repr(c.row)
        if key in seen:
            continue
        seen.add(key)
        yield c


def region(n, locs, pad):
    ext = []
    for d in range(len(n)):
        lo, hi = pad[2 * d], pad[2 * d + 1]
        ext.append((0 if lo is None or not locs else max(0, min(q[d] for q in locs) - lo),
                    n[d] if hi is None or not locs else min(n[d], max(q[d] for q in locs) + hi + 1)))
    return ext


class Case:
    def __init__(self, pde, nd, row, salt):
        r = self.row = dict(row)
        if r["src"] == "none" and r["init"] == "none":
            r["init"] = "all"
        if r["survey"] == "origin" and r["init"] == "none":
            r["init"] = "some"
        if r["nt"] == 1 and r["sub"] == 3:
            r["nt"] = 4
        if r["rec"] == "none" and r["want"] == "x":
            r["rec"] = "one"
        if r["sub"] == 1 and r["win"] != "none":
            pass  # the windows must then have no effect
        self.pde, self.nd, self.salt = pde, nd, salt
        Rr = r["acc"] // 2
        n = ([5], [4, 5], [3, 4, 3])[nd - 1]
        if r["size"] == "big":
            n = ([2 * Rr + 9], [2 * Rr + 5, 2 * Rr + 3], [Rr + 4, 2 * Rr + 3, 4])[nd - 1]
        pml = {"none": [0] * 6, "all": [2, 2, 2, 2, 2, 2], "a": [2, 0, 0, 3, 1, 0], "b": [0, 3, 2, 1, 0, 2]}[r["pml"]][:2 * nd]
        sp = {1: [1.1], 2: [1.0, 1.25], 3: [1.1, 1.25, 0.8]}[nd]
        base = Cfg(dict(pde=pde, n=n, acc=r["acc"], pml=pml, dtype=r["dtype"], h=sp))
        dt = r["sign"] * base.dt / 0.9 * (r["sub"] - 0.4)
        cfg = self.cfg = Cfg(dict(base.d, dt=dt))
        S, nt = self.S, self.nt = r["S"], r["nt"]
        q = lambda x: x.to(cfg.dtype).to(F64)  # noqa: E731
        m = cfg.models(salt=salt, batch=None if r["batch"] == "shared" else S)
        if r["batch"] == "mix" and len(m) > 1:
            k0 = list(m)[salt % len(m)]
            m[k0] = m[k0][0]
        self.models = m
        # region in which locations may lie
        if r["survey"] == "origin":
            ext = [((salt + d) % 2, n[d] - (salt // 2 + d) % 2 * (n[d] > 3)) for d in range(nd)]
        else:
            ext = [(0, x) for x in n]
        box = list(itertools.product(*[range(a, b - 1) for a, b in ext]))  # half points inside
        if r["survey"] in ("pad", "list"):  # so that a region smaller than the model is selected
            box = box[: max(4, len(box) // 2)]
        sk, rk = cfg.skinds(), cfg.rkinds()
        if r["src"] == "one":
            sk = [sk[salt % len(sk)]]
        if r["rec"] == "one":
            rk = [rk[salt % len(rk)]]
        self.slocs, self.amps, self.rl = {}, {}, {}
        used = []
        if r["src"] != "none":
            for i, k in enumerate(sk):
                c = min(len(box), r["nsrc"] if i % 2 == 0 else 3 - r["nsrc"])
                self.slocs[k] = self.pick(box, salt + i, 3, c)
                self.amps[k] = q(dense((S, c, nt), salt + 20 + i))
        if r["rec"] != "none":
            for i, k in enumerate(rk):
                self.rl[k] = self.pick(box, 2 * salt + 2 * i, 1, min(len(box), 1 + (i + salt) % 3))
        if r["ign"] == "src" and self.slocs:
            k = list(self.slocs)[salt % len(self.slocs)]
            self.slocs[k][salt % S, -1] = IGNORE
        if r["ign"] == "rec" and self.rl:
            k = list(self.rl)[salt % len(self.rl)]
            self.rl[k][salt % S, 0] = IGNORE
        for d in (self.slocs, self.rl):
            for x in d.values():
                used += [tuple(y) for y in x.reshape(-1, nd).tolist() if y[0] != IGNORE]
        self.extra = {}
        if r["survey"] == "origin":
            self.extra["origin"] = [a for a, _ in ext]
        elif r["survey"] != "none":
            pad = [1] * (2 * nd) if r["survey"] == "pad" else [None, 1, 0, 2, 1, None][:2 * nd]
            ext = region(n, used, pad)
            self.extra["survey_pad"] = 1 if r["survey"] == "pad" else pad
        self.ext = ext
        sub = [b - a for a, b in ext]
        self.sub = Cfg(dict(cfg.d, n=sub))
        names = cfg.names()
        ini = {k: q(dense((S, *self.sub.n), salt + i)) for i, k in enumerate(names)}
        if r["init"] == "none":
            ini = {}
        elif r["init"] == "some":
            ini = {k: v for i, (k, v) in enumerate(ini.items()) if (i + salt) % 2 == 0}
        self.ini = ini
        self.win = {"none": {}, "freq": dict(freq_taper_frac=0.4), "pad": dict(time_pad_frac=0.5), "taper": dict(time_taper=True),
                    "both": dict(freq_taper_frac=0.2, time_pad_frac=0.3)}[r["win"]]
        self.extra.update(self.win, model_gradient_sampling_interval=r["iv"], storage_mode=r["store"], storage_path="store",
                          storage_compression=r["comp"])
        want = {"all": None, "models": {("model", k) for k in m}, "amps": {("amp", k) for k in self.amps},
                "init": {("init", k) for k in ini},
                "one": {("model", list(m)[salt % len(m)])}}[r["want"]]
        if want is not None and not want:
            want = {("model", list(m)[0])}
        self.want = want
        self.lay = G.out_layout(self.sub, self.rl, nt)
        self.cot = G.cot_dense(self.lay, S, salt + 5.0, cfg.dtype)
        self.tol = 1e-9 if cfg.dtype == F64 else 5e-4
        self.vmax = cfg.max_vel
        if r["vel"] == "auto":
            if pde == "elastic":
                x = (m["lamb"] + 2 * m["mu"]) * m["buoyancy"]
                self.vmax = float(max(x.max(), (m["mu"] * m["buoyancy"]).max()).sqrt())
            else:
                self.vmax = float(m["v"].abs().max())
        lim = 0.6 / sum(1 / x**2 for x in cfg.h) ** 0.5 / self.vmax
        self.ratio = -(-abs(dt) // lim)
        self.ratio = int(self.ratio)

    def pick(self, box, first, per_shot, c):
        """c distinct cells for every shot."""
        return torch.tensor([[box[(first + per_shot * s + j * (1 + len(box) // 4 if len(box) > 8 else 1)) % len(box)]
                              for j in range(c)] for s in range(self.S)])

    # ------------------------------------------------------------------
    def lay_out(self, x):
        """The same values in another memory layout."""
        if self.row["layout"] == "plain" or x.ndim < 2:
            return x
        if self.row["layout"] == "permuted":
            if x.ndim == 4:
                return x.contiguous(memory_format=torch.channels_last)
            return x.movedim(0, -1).contiguous().movedim(-1, 0)
        y = torch.empty(*x.shape[:-2], x.shape[-1], x.shape[-2] + 1, dtype=x.dtype)
        y = y.transpose(-1, -2)[..., 1:, :]
        return y.copy_(x)

    def kwargs(self, lv, **over):
        m, a, i = G.split(lv)
        kw = kwargs_for(self.cfg, m, self.nt, a, {k: self.lay_out(v) for k, v in self.slocs.items()},
                        {k: self.lay_out(v) for k, v in self.rl.items()}, i)
        if self.row["vel"] == "auto":
            kw["max_vel"] = None
        kw.update(self.extra)
        if self.row["cbk"] != "none" and "python_backend" not in over:
            kw["callback_frequency"] = self.row["cbf"]
            if "f" in self.row["cbk"]:
                kw["forward_callback"] = lambda s: None
            if "b" in self.row["cbk"]:
                kw["backward_callback"] = lambda s: None
        kw.update(over)
        return kw

    def leaves(self, conv=None):
        conv = conv or (lambda x: self.lay_out(x.to(self.cfg.dtype)))
        return G.leaves(self.models, self.amps, self.ini, self.want, lambda x: conv(x).detach())

    def forward(self, lv, **over):
        f, rec = unpack(self.cfg, func(self.pde)(**self.kwargs(lv, **over)))
        o = G.outs(f, rec)
        return {k: o[k] for k in [("field", x) for x in f] + [("rec", x) for x in self.rl]}

    def impl(self, lv=None, threads=None, **over):
        """Outputs and gradients of the real library."""
        old = torch.get_num_threads()
        torch.set_num_threads(threads or self.row["thr"])
        try:
            lv = lv or self.leaves()
            o = self.forward(lv, **over)
            g = G.vjp(lv, o, self.cot, self.want)
            return {k: v.detach() for k, v in o.items()}, g
        finally:
            torch.set_num_threads(old)

    def ref_forward(self, lv, interval=None):
        from checks.c13 import down, up
        m, a, i = G.split(lv)
        w = self.win
        args = (w.get("freq_taper_frac", 0), w.get("time_pad_frac", 0), w.get("time_taper", False))
        U = up(self.nt, self.ratio, *args)
        D = down(self.nt * self.ratio, self.ratio, *args)
        sub = R.Ref(self.pde, self.sub.inner, self.cfg.h, self.cfg.dt / self.ratio, self.cfg.acc, self.cfg.pml, self.cfg.pml_freq,
                    self.vmax)
        o = torch.tensor([x for x, _ in self.ext])
        sh = lambda d: {k: torch.where(x == IGNORE, x, x - o) for k, x in d.items()}  # noqa: E731
        cut = lambda v: v[(Ellipsis, *[slice(x, y) for x, y in self.ext])]  # noqa: E731
        f, rec = sub.run({k: cut(v) for k, v in m.items()}, self.nt * self.ratio, self.S, {k: v @ U.T for k, v in a.items()},
                         sh(self.slocs), sh(self.rl), i, ignore=IGNORE,
                         interval=self.ratio * self.row["iv"] if interval is None else interval)
        return G.outs(f, {k: v @ D.T for k, v in rec.items()})

    def reference(self):
        lv = self.leaves(lambda x: x.to(F64).clone())
        o = self.ref_forward(lv)
        return o, G.vjp(lv, o, self.cot, self.want)

    # ------------------------------------------------------------------
    def count(self, r, n=1, grads=True):
        r.states += self.S
        r.traces += self.S * n
        r.transitions += n * self.S * self.nt * self.ratio * (2 if grads else 1)
        r.evaluations += n

    def compare_outs(self, r, key, got, want, tol=None, what="", floor=1e-3):
        for k, w in want.items():
            r.close(f"{key}:{k[0]}:{k[1]}", got[k], w, tol or self.tol, f"{what}{k[0]} {k[1]}",
                    scale=max(floor, float(w.abs().max()) if w.numel() else 0), options=self.row, cfg=self.cfg.d)

    def compare_grads(self, r, key, got, want, tol=None, what="", groups=None):
        for k, w in want.items():
            if groups and k[0] not in groups:
                continue
            if k[0] == "model" and self.row["store"] == "none":
                continue
            g = got.get(k)
            if g is None and w is None:
                continue
            w = torch.zeros_like(g) if w is None else w
            g = torch.zeros_like(w) if g is None else g
            r.close(f"{key}:{k[0]}:{k[1]}", g, w, tol or self.tol * 20, f"{what}gradient of {k[0]} {k[1]}",
                    scale=max(1e-3, float(w.abs().max()) if w.numel() else 0), options=self.row, cfg=self.cfg.d)

    def outcome(self, r, o, g=None):
        r.outcome([self.pde, self.nd, self.row] + [round(float(x.detach().double().norm()), 6) for x in o.values()]
                  + [round(float(x.double().norm()), 6) for x in (g or {}).values() if x is not None])


def against_reference(task, r, groups, outputs=True, **force):
    for c in cases(task, **force):
        o, g = c.impl()
        o2, g2 = c.reference()
        c.count(r, 1)
        if outputs:
            c.compare_outs(r, "compose:out", o, o2, what="combined options: ")
        if groups:
            c.compare_grads(r, "compose:grad", g, g2, what="combined options: ", groups=groups)
        c.outcome(r, o, g)
        r.sample = c.row


# ---------------------------------------------------------------------- one relation per property
def backends(task, r):
    """The Python backend in the same context."""
    for c in cases(task, store="device", comp=False, thr=1):
        o, g = c.impl()
        o2, g2 = c.impl(python_backend="eager")
        c.count(r, 2)
        c.compare_outs(r, "compose:out", o2, o, what="combined options, eager: ")
        lin = c.ratio * c.row["iv"] > 1
        c.compare_grads(r, "compose:grad", g2, g, what="combined options, eager: ", groups=("amp", "init") if lin else None)
        c.outcome(r, o, g)
        r.sample = c.row


def resampled(task, r):
    """The assignments whose time step is divided."""
    against_reference(task, r, ("model", "amp", "init"), only=lambda x: x["sub"] > 1, comp=False)


def regions(task, r):
    """The assignments that use a part of the model."""
    against_reference(task, r, ("model", "amp", "init"), only=lambda x: x["survey"] != "none", comp=False)


def memory(task, r):
    """Two contents of fresh memory (address sanitizer build)."""
    from deepwave.backend_utils import dll
    assert dll.fill_install() >= 0
    for c in cases(task):
        res = []
        for b in (0xFF, 0x3F):
            dll.fill_set(b)
            try:
                res.append(c.impl())
            finally:
                dll.fill_set(-1)
            c.count(r)
        (o, g), (o2, g2) = res
        for k, x, y in [(("out", *k), v, o2[k]) for k, v in o.items()] + [(("grad", *k), v, g2[k]) for k, v in g.items()]:
            if (x is None) != (y is None):
                r.violate("compose:unset", f"combined options: {k} missing", options=c.row, cfg=c.cfg.d)
            elif x is None:
                continue
            elif not torch.isfinite(x).all():
                r.violate("compose:nan", f"combined options: {k} is not finite when fresh memory is filled with NaN", options=c.row,
                          cfg=c.cfg.d)
            elif not torch.equal(x, y):
                r.violate("compose:unset", f"combined options: {k} depends on the contents of fresh memory", options=c.row,
                          cfg=c.cfg.d)
        c.outcome(r, o, g)
        r.sample = c.row


def teams(task, r):
    """Schedules of teams of 2 and 3 (scheduler build): no race, results as with one thread."""
    from checks.c11 import Sched
    sc = Sched()
    for c in cases(task, thr=1, S=3):
        sc.reset()
        base = c.impl(threads=1)
        batched = {k for k, v in c.models.items() if v.ndim > c.nd}
        for T in (3, 2):
            for n, sch in enumerate((dict(order=range(T), log=1), dict(order=list(reversed(range(T)))),
                                     dict(order=[(i + 1) % T for i in range(T)], quantum=17))):
                sc.reset(**sch)
                o, g = c.impl(threads=T)
                st = sc.stats()
                c.count(r)
                if n == 0:
                    r.states += st["granules"]
                    r.transitions += st["accesses"]
                    for x in sc.races():
                        r.violate("compose:race", f"combined options: members {x['members']} of a team of {T}: {x['kind']} at "
                                                  f"{x['where']} conflicts with an unordered access at {x['other']}",
                                  options=c.row, cfg=c.cfg.d, **x)
                for k, w in base[0].items():
                    if not torch.equal(o[k], w):
                        r.violate(f"compose:out:{k}", f"combined options: {k} depends on the schedule {sch} of {T} threads",
                                  options=c.row, cfg=c.cfg.d)
                for k, w in base[1].items():
                    shared = k[0] == "model" and k[1] not in batched
                    c.compare_grads(r, "compose:grad", {k: g.get(k)}, {k: w},
                                    (1e-12 if c.cfg.dtype == F64 else 2e-5) if shared else 1e-15,
                                    f"combined options, {T} threads: ")
        sc.reset()
        c.outcome(r, *base)
        r.sample = c.row


def stores(task, r):
    """Storage modes in the same context (with few assignments all of them, otherwise the assigned one)."""
    for c in cases(task):
        row = c.row
        plain = dict(storage_mode="device", storage_compression=False)
        base = c.impl(**plain)
        if task["t"] == 2:
            todo = list(itertools.product(("device", "cpu", "disk", "none"), (True, False)))
        else:
            todo = [(row["store"], row["comp"])]
        c.row = dict(row, store="device", comp=False)  # so that model gradients are compared
        packed = c.impl(storage_mode="device", storage_compression=True)[1] if any(x[1] and x[0] != "none" for x in todo) else None
        for mode, comp in todo:
            o, g = c.impl(storage_mode=mode, storage_compression=comp)
            c.count(r)
            c.compare_outs(r, f"compose:{mode}:out", o, base[0], 1e-14, f"combined options, {mode}, compression {comp}: ")
            c.compare_grads(r, f"compose:{mode}:grad", g, base[1], 1e-11, f"combined options, {mode}, compression {comp}: ",
                            groups=("amp", "init"))
            if mode == "none":
                continue
            c.compare_grads(r, f"compose:{mode}:grad", g, packed if comp else base[1], 1e-11,
                            f"combined options, {mode}, compression {comp}: ", groups=("model",))
        c.outcome(r, *base)
        r.outcome([todo, row, c.pde, c.nd])
        r.sample = row


def callbacks(task, r):
    """Watching callbacks: event sequence, live wavefields, no effect on the results."""
    for c in cases(task):
        cbk, cbf = c.row["cbk"], c.row["cbf"]
        c.row = dict(c.row, cbk="none")
        base = c.impl()
        st = {}

        def hook(t, s, m):
            if t % (c.ratio * c.row["iv"]) == 0:
                st[t // (c.ratio * c.row["iv"])] = s
            return s
        watch_ref(c, hook)
        steps = -(-c.nt // c.row["iv"])
        if task["t"] == 2:
            plans = (("f", "b", 1), ("", "b", 2), ("f", "", 3), ("f", "b", 2), ("f", "b", steps + 1))
        else:  # the assigned callbacks
            plans = [("f" * ("f" in cbk), "b" * ("b" in cbk), cbf) if cbk != "none" else ("f", "b", cbf)]
        for fk, bk, freq in plans:
            ev, bad = [], []

            def fwd(s):
                ev.append(("f", s.step, round(s.dt / c.cfg.dt * c.ratio, 9)))
                names = st[s.step]
                for k, w in names.items():
                    v = s.get_wavefield(k, view="pml")
                    if v.shape != w.shape or not (v.double() - w).abs().max() <= (c.tol * 10) * max(1e-3, float(w.abs().max())):
                        bad.append((s.step, k))
                s.get_model(MODEL0[c.pde], view="full").sum()

            def bwd(s):
                ev.append(("b", s.step, round(s.dt / c.cfg.dt * c.ratio, 9)))
                for k in c.cfg.names():
                    if c.pde == "scalar_born" and "_sc_" not in k:
                        continue  # not propagated backward when only scattered results are needed
                    s.get_wavefield(k, view="inner").sum()
            kw = dict(callback_frequency=freq)
            if fk:
                kw["forward_callback"] = fwd
            if bk:
                kw["backward_callback"] = bwd
            o, g = c.impl(**kw)
            c.count(r)
            wf = [("f", i, 1.0) for i in range(0, steps, freq)] if fk else []
            wb = [("b", i, 1.0) for i in (max(k - freq, 0) for k in range(steps, 0, -freq))] if bk else []
            anyg = any(x is not None for x in g.values())
            want = wf + (wb if anyg else [])
            if ev != want:
                r.violate("compose:events", f"combined options, frequency {freq}: events {ev} instead of {want}", options=c.row,
                          cfg=c.cfg.d)
            if bad:
                r.violate("compose:live", f"combined options, frequency {freq}: (step, field) not live: {bad[:5]}", options=c.row,
                          cfg=c.cfg.d)
            c.compare_outs(r, "compose:out", o, base[0], 1e-13, f"combined options, callbacks every {freq}: ")
            c.compare_grads(r, "compose:grad", g, base[1], 1e-11 if c.cfg.dtype == F64 else 1e-5,
                            f"combined options, callbacks every {freq}: ")
        c.outcome(r, *base)
        r.sample = c.row


MODEL0 = {"scalar": "v", "scalar_born": "scatter", "acoustic": "K", "elastic": "lamb"}


def watch_ref(c, hook):
    old = R.Ref.run

    def run(self, *a, **k):
        return old(self, *a, **{**k, "hook": hook})
    R.Ref.run = run
    try:
        with torch.no_grad():
            c.ref_forward(c.leaves(lambda x: x.to(F64).clone()))
    finally:
        R.Ref.run = old


def shots(task, r):
    """Every shot alone, and the shots in reverse order."""
    for c in cases(task, S=3, survey="none", vel="given"):
        _shots(c, r)
    for c in cases(task, S=2, survey="origin", vel="given"):
        _shots(c, r)


def part_of(c, idx):
    import copy
    x = copy.copy(c)
    pick = lambda d: {k: v[idx] for k, v in d.items()}  # noqa: E731
    x.S = len(idx)
    x.models = {k: v[idx] if v.ndim > c.nd else v for k, v in c.models.items()}
    x.amps, x.slocs, x.rl, x.ini, x.cot = pick(c.amps), pick(c.slocs), pick(c.rl), pick(c.ini), pick(c.cot)
    return x


def _shots(c, r):
    o, g = c.impl()
    tot = {}
    batched = {k for k, v in c.models.items() if v.ndim > c.nd}
    t1, t2 = (1e-12, 1e-11) if c.cfg.dtype == F64 else (1e-6, 1e-5)
    for idx in [[s] for s in range(c.S)] + [list(reversed(range(c.S)))]:
        o1, g1 = part_of(c, idx).impl()
        c.count(r)
        sel = {k: v[idx] for k, v in o.items()}
        c.compare_outs(r, "compose:out", o1, sel, t1, f"combined options, shots {idx}: ")
        want = {k: (v[idx] if v is not None else None) for k, v in g.items() if k[0] != "model" or k[1] in batched}
        c.compare_grads(r, "compose:grad", g1, want, t2, f"combined options, shots {idx}: ")
        for k, v in g1.items():
            if k not in want and v is not None and len(idx) == 1:
                tot[k] = tot.get(k, 0) + v
            elif k not in want and len(idx) > 1:
                tot[k, "all"] = v
    for k, v in g.items():
        if k in tot:
            c.compare_grads(r, "compose:sum", {k: v}, {k: tot[k]}, t2, "combined options, sum over the shots: ")
            c.compare_grads(r, "compose:reverse", {k: tot.get((k, "all"))}, {k: v}, t2, "combined options, shots reversed: ")
    c.outcome(r, o, g)
    r.sample = c.row


def threads(task, r):
    """Numbers of threads."""
    for c in cases(task, S=3):
        base = c.impl(threads=1)
        for n in (2, 3, 8):
            o, g = c.impl(threads=n)
            c.count(r)
            for k, w in base[0].items():
                if not torch.equal(o[k], w):
                    r.violate(f"compose:out:{k}", f"combined options: {k} with {n} threads differs from one thread", options=c.row,
                              cfg=c.cfg.d)
            c.compare_grads(r, "compose:grad", g, base[1], 1e-12 if c.cfg.dtype == F64 else 1e-5,
                            f"combined options, {n} threads: ")
        c.outcome(r, *base)
        r.sample = c.row


def splits(task, r):
    """Split at every step (gradients: at multiples of the sampling interval)."""
    for c in cases(task, sub=1, survey="none"):
        _splits(c, r)
    for c in cases(task, sub=1, survey="origin"):
        _splits(c, r)


def _splits(c, r):
    if c.ratio != 1 or c.nt < 2:
        return
    o0, g0 = c.impl()
    t1, t2 = (1e-11, 1e-10) if c.cfg.dtype == F64 else (1e-5, 1e-4)
    old = torch.get_num_threads()
    torch.set_num_threads(c.row["thr"])
    try:
        for k in range(1, c.nt):
            lv = c.leaves()
            m, a, i = G.split(lv)
            kw1 = c.kwargs(lv)
            for x, v in a.items():
                kw1["source_amplitudes" + ("_" + x if x else "")] = v[..., :k]
            if not a:
                kw1["nt"] = k
            f1, rec1 = unpack(c.cfg, func(c.pde)(**kw1))
            kw2 = c.kwargs(lv)
            for x, v in a.items():
                kw2["source_amplitudes" + ("_" + x if x else "")] = v[..., k:]
            if not a:
                kw2["nt"] = c.nt - k
            kw2.update(f1)
            f2, rec2 = unpack(c.cfg, func(c.pde)(**kw2))
            o = {("field", x): v for x, v in f2.items()}
            o.update({("rec", x): torch.cat([rec1[x], rec2[x]], -1) for x in c.rl})
            c.count(r, 2)
            c.compare_outs(r, "compose:out", o, o0, t1, f"combined options, split at {k}: ")
            if k % c.row["iv"] == 0 and not c.row["comp"]:
                c.compare_grads(r, "compose:grad", G.vjp(lv, o, c.cot, c.want), g0, t2, f"combined options, split at {k}: ")
    finally:
        torch.set_num_threads(old)
    c.outcome(r, o0, g0)
    r.sample = c.row


def modules(task, r):
    """Module and function."""
    import inspect
    import deepwave
    cls = {"scalar": deepwave.Scalar, "scalar_born": deepwave.ScalarBorn, "acoustic": deepwave.Acoustic,
           "elastic": deepwave.Elastic}[task["pde"]]
    ctor = set(inspect.signature(cls.__init__).parameters)
    for c in cases(task):
        o, g = c.impl()
        lv = c.leaves()
        kw = c.kwargs(lv)
        torch.set_num_threads(c.row["thr"])
        names = list(c.models)
        mod = cls(**{k: kw.pop(k).detach() for k in names}, **{k + "_requires_grad": lv["model", k].requires_grad for k in names},
                  **{k: kw.pop(k) for k in list(kw) if k in ctor})
        f, rec = unpack(c.cfg, mod(**kw))
        o2 = G.outs(f, rec)
        for k in names:
            lv["model", k] = getattr(mod, k)
        g2 = G.vjp(lv, {k: o2[k] for k in o}, c.cot, c.want)
        torch.set_num_threads(1)
        c.count(r, 2)
        c.compare_outs(r, "compose:out", o2, o, 1e-14, "combined options, module: ")
        c.compare_grads(r, "compose:grad", g2, g, 1e-13, "combined options, module: ")
        c.outcome(r, o, g)
        r.sample = c.row


def untouched(task, r):
    """Nothing passed to a call is written to."""
    for backend in (False, "eager"):
        for c in cases(task, thr=1, **({"store": "device", "comp": False} if backend else {})):
            lv = c.leaves()
            kw = c.kwargs(lv, **({"python_backend": backend} if backend else {}))
            t = {k: v for k, v in kw.items() if isinstance(v, torch.Tensor)}
            lists = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
            before = {k: (v.detach().clone(), v._version, v.stride(), v.requires_grad) for k, v in t.items()}
            out = func(c.pde)(**kw)

            def check(when):
                for k, v in t.items():
                    b, ver, st, rg = before[k]
                    if not torch.equal(v.detach(), b) or v._version != ver or v.stride() != st or v.requires_grad != rg:
                        r.violate(f"compose:modified:{k}", f"combined options: {k} was modified by the {when} pass ({backend})",
                                  options=c.row, cfg=c.cfg.d)
                for k, v in lists.items():
                    if list(kw[k]) != v:
                        r.violate(f"compose:modified:{k}", f"combined options: {k} was modified", options=c.row, cfg=c.cfg.d)
            check("forward")
            for x in out:
                for k, v in t.items():
                    if x.numel() and v.numel() and x.untyped_storage().data_ptr() == v.untyped_storage().data_ptr():
                        r.violate(f"compose:alias:{k}", f"combined options: a result shares memory with {k}", options=c.row,
                                  cfg=c.cfg.d)
            f, rec = unpack(c.cfg, out)
            o = G.outs(f, rec)
            cot = {k: v.to(c.cfg.dtype) for k, v in c.cot.items()}
            c0 = {k: v.clone() for k, v in cot.items()}
            g = G.vjp(lv, {k: o[k] for k in cot}, cot, c.want)
            check("backward")
            if any(not torch.equal(cot[k], c0[k]) for k in cot):
                r.violate("compose:cotangent", "combined options: upstream gradients were modified", options=c.row, cfg=c.cfg.d)
            c.count(r)
            c.outcome(r, o, g)
            r.sample = c.row


def overlapping(task, r):
    """Neighbouring cases alive at the same time, in interleaved orders, against alone."""
    import gc
    import os
    cs = list(cases(task))
    for a, b in zip(cs, cs[1:] + cs[:1]):
        alone = [x.impl() for x in (a, b)]
        for order in ("abABA", "abBAB", "abAbB", "aAbBB", "abBaA"):
            live, seen = {}, []
            for op in order:
                i = "ab".index(op.lower())
                x = (a, b)[i]
                torch.set_num_threads(x.row["thr"])
                if op.islower():
                    lv = x.leaves()
                    live[i] = (lv, x.forward(lv))
                else:
                    lv, o = live[i]
                    seen.append((i, o, G.vjp(lv, o, x.cot, x.want, retain_graph=True)))
                    lv = o = None
            for i, o, g in seen:
                x = (a, b)[i]
                x.count(r)
                # without tolerance: the same operations in the same order
                x.compare_outs(r, f"compose:{order}:out", o, alone[i][0], 1e-15, f"combined options, {order}: ")
                x.compare_grads(r, f"compose:{order}:grad", g, alone[i][1], 1e-14 if x.cfg.dtype == F64 else 1e-6,
                                f"combined options, {order}: ")
            live.clear()
            seen.clear()
            lv = o = g = None
            if os.path.isdir("store") and os.listdir("store"):
                gc.collect()
            if os.path.isdir("store") and os.listdir("store"):
                r.violate("compose:files", f"combined options, {order}: files left {os.listdir('store')[:3]}", options=[a.row, b.row],
                          cfg=a.cfg.d)
            r.outcome([a.row, b.row, order, a.pde])
        alone = None
    torch.set_num_threads(1)
    r.sample = cs[0].row if cs else None


def second_order(task, r):
    """Second derivatives in the same context."""
    for c in cases(task, sub=1, iv=1, comp=False, dtype="double"):
        if c.row["store"] == "none":
            continue
        res = []
        for real in (True, False):
            lv = c.leaves(None if real else (lambda x: x.to(F64).clone()))
            torch.set_num_threads(c.row["thr"])
            o = c.forward(lv) if real else c.ref_forward(lv, 1)
            cl = {k: v.clone().requires_grad_() for k, v in c.cot.items()}
            keys = [k for k in lv if c.want is None or k in c.want]
            ks = [k for k in cl if o[k].requires_grad]
            if not ks:
                break
            g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [cl[k] for k in ks], create_graph=True,
                                    allow_unused=True)
            live = [x for x in g if x is not None and x.requires_grad]
            if not live:
                break
            w = [dense(tuple(x.shape), 3 + i) for i, x in enumerate(g) if x is not None and x.requires_grad]
            tgt = [lv[k] for k in keys] + [cl[k] for k in ks]
            h = torch.autograd.grad(live, tgt, w, allow_unused=True)
            res.append(({k: (torch.zeros_like(lv[k]) if x is None else x) for k, x in zip(keys, g)},
                        {k: (torch.zeros_like(t) if x is None else x) for k, x, t in zip([("second",) + k for k in keys] +
                                                                                       [("upstream",) + k for k in ks], h, tgt)}))
        torch.set_num_threads(1)
        if len(res) < 2:
            continue
        c.count(r, 3)
        for j, what in ((0, "first gradient"), (1, "second-order result")):
            for k, w in res[1][j].items():
                r.close(f"compose:{what}:{k}", res[0][j][k], w, 1e-8, f"combined options, {what} {k}",
                        scale=max(1e-3, float(w.abs().max())), options=c.row, cfg=c.cfg.d)
        r.outcome([c.row, c.nd, [round(float(x.norm()), 7) for x in res[1][1].values()]])
        r.sample = c.row


def symmetry(task, r):
    """Axis permutations and mirrors in the same context."""
    import copy
    from checks.c21 import Sym, elements
    for sv in ("none", "origin"):
        for n, c in enumerate(cases(task, survey=sv, comp=False)):
            o, g = c.impl()
            els = list(elements(c.nd))
            for e in {(n * 7 + 1) % len(els), (n * 11 + 5) % len(els), len(els) - 1 - n % 2}:
                perm, mir = els[e]
                s, ss = Sym(c.cfg, perm, mir), Sym(c.sub, perm, mir)
                x = copy.copy(c)
                x.cfg, x.sub = s.new, ss.new
                x.models = {k: (torch.stack([s.model(y) for y in v]) if v.ndim > c.nd else s.model(v)) for k, v in c.models.items()}
                move = lambda k, v: torch.where(v == IGNORE, v[..., list(perm)], s.loc(k, v))  # noqa: E731
                x.slocs = {s.kind(k): move(k, v) for k, v in c.slocs.items()}
                x.rl = {s.kind(k): move(k, v) for k, v in c.rl.items()}
                x.amps = {s.kind(k): v * s.ksign(k) for k, v in c.amps.items()}
                x.ini = {s.name(k): ss.field(k, v) for k, v in c.ini.items()}
                x.cot = {(a, s.name(k) if a == "field" else s.kind(k)): ss.field(k, v) if a == "field" else v * s.ksign(k)
                         for (a, k), v in c.cot.items()}
                nm = lambda k: (k[0], k[1] if k[0] == "model" else s.kind(k[1]) if k[0] in ("amp", "rec") else s.name(k[1]))  # noqa: E731
                x.want = None if c.want is None else {nm(k) for k in c.want}
                x.extra = dict(c.extra)
                if "origin" in x.extra:
                    og = [c.cfg.inner[d] - c.ext[d][1] if d in mir else c.ext[d][0] for d in range(c.nd)]
                    x.extra["origin"] = [og[i] for i in perm]
                o2, g2 = x.impl()
                c.count(r)
                want, wg = {}, {}
                for k, v in o.items():
                    want[nm(k)] = ss.field(k[1], v.detach()) if k[0] == "field" else v.detach() * s.ksign(k[1])
                for k, v in g.items():
                    if v is None:
                        wg[nm(k)] = None
                    elif k[0] == "model":
                        wg[k] = torch.stack([s.model(y) for y in v]) if v.ndim > c.nd else s.model(v)
                    elif k[0] == "amp":
                        wg[nm(k)] = v * s.ksign(k[1])
                    else:
                        wg[nm(k)] = ss.field(k[1], v)
                t = 1e-10 if c.cfg.dtype == F64 else 3e-4
                half = {k: ss.field(k, torch.ones(1, *c.sub.n, dtype=F64)).abs() for k in c.cfg.names()}
                for k in c.cfg.names():  # the point beyond the last half point is not part of the grid
                    kk = ("field", s.name(k))
                    o2[kk] = o2[kk] * half[k]
                    want[kk] = want[kk] * half[k]
                    kk = ("init", s.name(k))
                    if wg.get(kk) is not None and g2.get(kk) is not None:
                        wg[kk] = wg[kk] * half[k]
                        g2[kk] = g2[kk] * half[k]
                c.compare_outs(r, "compose:out", o2, want, t, f"combined options, axes {perm} mirrored {mir}: ")
                c.compare_grads(r, "compose:grad", g2, wg, t * 10, f"combined options, axes {perm} mirrored {mir}: ")
            c.outcome(r, o, g)
            r.sample = c.row


def background(task, r):
    """Born propagation: background results are those of the scalar propagator."""
    task = {**task, "pde": "scalar_born"}
    for c in itertools.chain(cases(task, survey="none"), cases(task, survey="origin")):
        lv = c.leaves()
        kw = c.kwargs(lv)
        torch.set_num_threads(c.row["thr"])
        f, rec = unpack(c.cfg, func("scalar_born")(**kw))
        kw = {k: v for k, v in kw.items() if k not in ("scatter", "receiver_locations") and "_sc_" not in k}
        if "bg_receiver_locations" in kw:
            kw["receiver_locations"] = kw.pop("bg_receiver_locations")
        sc = Cfg(dict(c.cfg.d, pde="scalar"))
        if "nt" not in kw and not c.amps:
            kw["nt"] = c.nt
        if not c.amps and not any(k in kw for k in sc.names()):
            continue
        f2, rec2 = unpack(sc, func("scalar")(**kw))
        torch.set_num_threads(1)
        c.count(r, 2, grads=False)
        got = {("field", k): f[k] for k in f2}
        want = {("field", k): v for k, v in f2.items()}
        if "bg" in c.rl:
            got["rec", "bg"], want["rec", "bg"] = rec["bg"], rec2[""]
        c.compare_outs(r, "compose:background", got, want, 1e-13 if c.cfg.dtype == F64 else 1e-5, "combined options, background: ")
        c.outcome(r, want)
        r.sample = c.row

