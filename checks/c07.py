"""C07: all histories (forward, retained backward, final backward, double backward,
aborted forward, release) of two or three live propagations sharing one storage
directory, up to a depth, and all interleavings of two propagations running in two
threads at the granularity of single time steps (callbacks are the scheduling points),
executed on the real code; files and gradients are compared with the model after every
event."""
import gc
import itertools
import os
import threading
from pathlib import Path

import torch

from vlib import compose
from vlib import grad as G
from vlib.impl import F64, Cfg, call

LEVEL = "model_checking"
RULE = "distinct (configuration, history prefix state, result digests)"
BOUNDS = {
    "quick": "2 slots, all histories of up to 5 events (6 for one pair) and 3 slots up to 4 events over 8 combinations "
             "of propagators and storage modes; two-thread interleavings of 2 forward + 2 backward steps "
             "each at every scheduling point for every pair of propagators",
    "thorough": "depth 7 with 2 slots, 6 with 3 slots; threads with 3 steps each",
}
ASSUMPTIONS = ["release means dropping all references and one garbage collection",
               "scheduling points inside native code are those of C11"]
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
SHAPES = {1: ([5], [1, 1]), 2: ([3, 4], [0, 1, 1, 0])}
COMBINED = compose.plan(compose.overlapping, quick=dict(t=2, salt=1))


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    pairs = []
    for a in PDES:
        pairs.append(((a, "disk"), (a, "disk")))
    pairs += [(("scalar", "disk"), ("elastic", "disk")), (("acoustic", "disk"), ("scalar_born", "disk")),
              (("scalar", "disk"), ("scalar", "device")), (("scalar_born", "cpu"), ("scalar_born", "disk")),
              (("acoustic", "none"), ("acoustic", "disk"))]
    for i, pr in enumerate(pairs):
        nd = 1 + i % 2
        for comp in (False, True):
            if comp and i >= 4 and not th:
                continue
            D = 7 if th else 6 if i == 0 and not comp else 5
            parts = 8 if D >= 6 else 3
            for p in range(parts):
                out.append(dict(kind="hist", slots=[list(x) for x in pr], nd=nd, comp=comp, depth=D, part=p, parts=parts))
    for a in PDES:
        for p in range(4):
            out.append(dict(kind="hist", slots=[[a, "disk"]] * 3, nd=1, comp=False, depth=6 if th else 5, part=p, parts=4,
                            events="FBR"))
    for a, b in zip(PDES, PDES[1:] + PDES[:1]):  # a storage directory that is empty before and after
        out.append(dict(kind="hist", slots=[[a, "disk"], [b, "disk"]], nd=1, comp=False, depth=4 if th else 3, part=0, parts=1,
                        events="FBLXR", bare=True))
    for a, b in itertools.combinations_with_replacement(PDES, 2):
        for modes in (("disk", "disk"), ("disk", "device")):
            if modes[1] == "device" and a != b and not th:
                continue
            out.append(dict(kind="threads", slots=[[a, modes[0]], [b, modes[1]]], nd=1 if a != b else 2, comp=a == b,
                            nt=3 if th else 2))
    return out


class Slot:
    """One propagation: fixed inputs, its expected results (run alone)."""

    def __init__(self, i, pde, mode, nd, comp, store, nt=3):
        n, p = SHAPES[nd]
        self.cfg = cfg = Cfg(dict(pde=pde, n=n, pml=p, acc=2))
        self.i, self.mode, self.comp, self.store, self.nt, self.S = i, mode, comp, store, nt, 2
        self.inp = G.setup(cfg, self.S, nt, salt=5.0 * i, nsrc=1, rmax=2)
        self.lay = G.out_layout(cfg, self.inp[3], nt)
        self.cot = G.cot_dense(self.lay, self.S, 3.0 + i, cfg.dtype)
        self.live = None
        self.files = set()
        self.disk = mode == "disk"
        self.double = pde == "scalar"
        if comp:
            # the fault-free answer of the same configuration run alone
            self.forward()
            self.want_out = {k: v.detach().clone() for k, v in self.live[1].items()}
            self.want = self.backward(False)
        else:
            m, amps, slocs, rl, ini = self.inp
            o, g = G.reference(cfg, m, nt, self.S, amps, slocs, rl, ini, self.cot)
            self.want_out = {k: v.detach() for k, v in o.items()}
            self.want = {k: v.detach() for k, v in g.items() if v is not None}
        if mode == "none":
            self.want = {k: v for k, v in self.want.items() if k[0] != "model"}
        self.want2 = None
        self.live = None
        if self.double:
            self.forward()
            self.want2 = self.second()
            self.live = None
        gc.collect()

    def forward(self, cb=None, bcb=None):
        m, amps, slocs, rl, ini = self.inp
        lv = G.leaves(m, amps, ini, None, lambda x: x.to(self.cfg.dtype))
        mm, aa, ii = G.split(lv)
        extra = {}
        if cb:
            extra = dict(forward_callback=cb, backward_callback=bcb, callback_frequency=1)
        f, rec = call(self.cfg, mm, self.nt, aa, slocs, rl, ii, storage_mode=self.mode, storage_compression=self.comp,
                      storage_path=str(self.store), **extra)
        self.live = (lv, G.outs(f, rec))

    def backward(self, retain):
        lv, o = self.live
        ks = [k for k in self.cot if o[k].requires_grad]
        keys = list(lv)
        g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [self.cot[k].to(self.cfg.dtype) for k in ks],
                                allow_unused=True, retain_graph=retain)
        return {k: v for k, v in zip(keys, g) if v is not None and (self.mode != "none" or k[0] != "model")}

    def second(self):
        """Double backward on the retained graph."""
        lv, o = self.live
        ks = [k for k in self.cot if o[k].requires_grad]
        keys = list(lv)
        g = torch.autograd.grad([o[k] for k in ks], [lv[k] for k in keys], [self.cot[k].to(self.cfg.dtype) for k in ks],
                                allow_unused=True, create_graph=True)
        g2 = [x for x in g if x is not None and x.requires_grad]
        h = torch.autograd.grad(g2, [lv[k] for k in keys], [G.dense(tuple(x.shape), 2.0) for x in g2],
                                allow_unused=True, retain_graph=True)
        return {("2", *k): v for k, v in zip(keys, h)
                if v is not None and (self.mode != "none" or k[0] != "model")}


def listing(root):
    return {str(p.relative_to(root)) for p in root.rglob("*") if p.is_file()}


def dirs(root):
    return {str(p.relative_to(root)) for p in root.rglob("*") if p.is_dir()}


SENTINELS = {"shot_0.bin": b"mine", "deepwave_tmp_1_abc/shot_0.bin": b"other", "deepwave_tmp_1_abc/shot_1.bin": b"x",
             "notes.txt": b"keep"}


def plant(root):
    for k, v in SENTINELS.items():
        (root / k).parent.mkdir(parents=True, exist_ok=True)
        (root / k).write_bytes(v)


class Bad(Exception):
    pass


class Run:
    """Executes one history, checking the model after every event."""

    def __init__(self, r, slots, root, t):
        self.r, self.slots, self.root, self.t = r, slots, root, t
        self.keep = listing(root)
        self.keepd = dirs(root)
        self.hist = []

    def viol(self, key, what):
        self.r.violate(key, f"after {' '.join(self.hist)}: {what}", history=list(self.hist), task=self.t)

    def same(self, s, got, want, what):
        key = f"{s.cfg.pde}:{s.mode}:{what}"
        if set(got) != set(want):
            self.viol(key, f"{what} of propagation {s.i} has entries {sorted(map(str, got))}, alone {sorted(map(str, want))}")
            return
        sc = max([1e-30] + [float(x.abs().max()) for x in want.values()])
        for k in want:
            d = float((got[k].detach().double() - want[k].double()).abs().max()) if want[k].numel() else 0.0
            if not d <= 1e-9 * sc:
                self.viol(key, f"{what} {k} of propagation {s.i} differs by {d:.3e} from the propagation run alone")

    def event(self, e, i):
        s = self.slots[i]
        self.hist.append(f"{e}{i}")
        before = listing(self.root)
        if e == "F":
            s.forward()
            self.same(s, s.live[1], s.want_out, "outputs")
            new = listing(self.root) - before
            if s.disk and not new:
                self.viol("files", f"propagation {i} uses disk storage but no file appeared")
            if not s.disk and new:
                self.viol("files", f"propagation {i} does not use disk storage but {sorted(new)} appeared")
            for o in self.slots:
                if o.files & new:
                    self.viol("shared", f"propagations {i} and {o.i} share {sorted(o.files & new)}")
            s.files = new
        elif e == "B":
            self.same(s, s.backward(True), s.want, "gradient")
            extra = listing(self.root) - before
            if extra:
                self.viol("leak", f"backpropagation of {i} left {sorted(extra)}")
        elif e == "D":
            self.same(s, s.second(), s.want2, "second derivative")
            gc.collect()
            extra = listing(self.root) - before
            if extra:
                self.viol("leak", f"double backpropagation of {i} left {sorted(extra)}")
        elif e == "L":
            self.same(s, s.backward(False), s.want, "gradient")
            s.ended = True
        elif e == "X":  # forward aborted by its callback
            def boom(st):
                if st.step == 1:
                    raise Bad
            try:
                s.forward(cb=boom, bcb=lambda st: None)
                self.viol("exception", "exception of a callback was swallowed")
            except Bad:
                pass
            gc.collect()
            extra = listing(self.root) - before
            if extra:
                self.viol("leak", f"aborted propagation {i} left {sorted(extra)}")
        elif e == "R":
            s.live = None
            gc.collect()
            left = listing(self.root) & s.files
            if left:
                self.viol("leak", f"released propagation {i} left {sorted(left)}")
            s.files = set()
        now = listing(self.root)
        for o in self.slots:
            if o.live is not None and not getattr(o, "ended", False) and not o.files <= now:
                self.viol("vanished", f"files of live propagation {o.i} vanished: {sorted(o.files - now)}")
        want = set(self.keep)
        for o in self.slots:
            want |= o.files
        if now - want:
            self.viol("leak", f"unaccounted files {sorted(now - want)}")
        if self.keep - now:
            self.viol("unrelated", f"unrelated files {sorted(self.keep - now)} disappeared")
        self.r.transitions += 1

    def finish(self):
        for s in self.slots:
            s.live = None
            s.ended = False
            s.files = set()
        gc.collect()
        if not self.root.is_dir():
            self.viol("unrelated", "the storage directory itself, which existed before, was removed")
        if listing(self.root) != self.keep or dirs(self.root) != self.keepd:
            self.viol("leak", "left behind at the end: " + str(sorted((listing(self.root) - self.keep)
                                                                      | (dirs(self.root) - self.keepd))))
        for k, v in SENTINELS.items() if not self.t.get("bare") else ():
            if not (self.root / k).exists() or (self.root / k).read_bytes() != v:
                self.viol("unrelated", f"unrelated file {k} was changed")


def enabled(state, slots, alphabet):
    """Model: slot states idle -> live -> ended."""
    out = []
    for i, st in enumerate(state):
        if i > 0 and state[i] == "idle" and any(state[j] == "never" for j in range(i)):
            continue
        if st in ("idle", "never"):
            if "F" in alphabet and all(x != "never" for x in state[:i]):
                out.append(("F", i, "live"))
            if "X" in alphabet and st == "idle":
                out.append(("X", i, "idle"))
        elif st == "live":
            out.append(("B", i, "live"))
            if "L" in alphabet:
                out.append(("L", i, "ended"))
            if "D" in alphabet and slots[i].double:
                out.append(("D", i, "live"))
            out.append(("R", i, "idle"))
        elif st == "ended":
            out.append(("R", i, "idle"))
    return out


def histories(slots, depth, alphabet):
    """All maximal histories (every shorter one is a prefix of one of them)."""
    def rec(state, h):
        if len(h) == depth:
            yield h
            return
        for e, i, nxt in enabled(state, slots, alphabet):
            yield from rec(state[:i] + (nxt,) + state[i + 1:], h + ((e, i),))
    yield from rec(("never",) * len(slots), ())


def hist(t, r):
    root = Path(t["_scratch"]) / "store"
    root.mkdir()
    if not t.get("bare"):
        plant(root)
    gc.freeze()
    slots = [Slot(i, p, m, t["nd"], t["comp"], root) for i, (p, m) in enumerate(t["slots"])]
    gc.freeze()
    seen = set()
    for n, h in enumerate(histories(slots, t["depth"], t.get("events", "FBLDXR"))):
        if n % t["parts"] != t["part"]:
            continue
        run = Run(r, slots, root, {k: v for k, v in t.items() if k != "_scratch"})
        for e, i in h:
            run.event(e, i)
            seen.add(tuple(run.hist))
        run.finish()
        r.traces += 1
        r.evaluations += 1
        r.outcome((t["slots"], t["nd"], t["comp"], h))
        if r.violations:
            return
    r.states += len(seen)
    r.sample = {"history": run.hist}


class Sched:
    """Runs two threads one at a time; at each scheduling point the next thread is
    taken from the prescribed choice sequence."""

    def __init__(self, choices):
        self.choices, self.pos, self.trace = choices, 0, []
        self.cv = threading.Condition()
        self.cur, self.alive, self.waiting = None, set(), set()

    def pick(self):
        opts = sorted(self.alive)
        if not opts:
            self.cur = None
        else:
            c = self.choices[self.pos] if self.pos < len(self.choices) else 0
            self.trace.append((c % len(opts), len(opts)))
            self.pos += 1
            self.cur = opts[c % len(opts)]
        self.cv.notify_all()

    def point(self, me):
        with self.cv:
            self.pick()
            while self.cur != me:
                self.cv.wait(60)

    def end(self, me):
        with self.cv:
            self.alive.discard(me)
            self.pick()

    def go(self, bodies):
        errs = []
        self.alive = set(range(len(bodies)))

        def wrap(i, b):
            with self.cv:
                while self.cur != i:
                    self.cv.wait(60)
            try:
                b(lambda: self.point(i))
            except BaseException as e:  # noqa: BLE001
                errs.append((i, e))
            finally:
                self.end(i)
        th = [threading.Thread(target=wrap, args=(i, b)) for i, b in enumerate(bodies)]
        for x in th:
            x.start()
        with self.cv:
            self.pick()
        for x in th:
            x.join()
        return errs


def threads(t, r):
    root = Path(t["_scratch"]) / "store"
    root.mkdir()
    plant(root)
    slots = [Slot(i, p, m, t["nd"], t["comp"], root, nt=t["nt"]) for i, (p, m) in enumerate(t["slots"])]
    keep, keepd = listing(root), dirs(root)
    gc.freeze()
    stack, n = [[]], 0
    while stack:
        ch = stack.pop()
        sc = Sched(ch)
        res = [None, None]

        def body(i, y):
            s = slots[i]
            s.forward(cb=lambda st: y(), bcb=lambda st: y())
            y()
            o = {k: v.detach() for k, v in s.live[1].items()}
            res[i] = (o, s.backward(False))
            s.live = None
        errs = sc.go([lambda y, i=i: body(i, y) for i in range(2)])
        run = Run(r, slots, root, {k: v for k, v in t.items() if k != "_scratch"})
        run.hist = ["schedule", "".join(str(c) for c, _ in sc.trace)]
        for i, e in errs:
            run.viol("exception", f"thread {i}: {type(e).__name__}: {e}")
        for s, x in zip(slots, res):
            if x:
                run.same(s, x[0], s.want_out, "outputs")
                run.same(s, x[1], s.want, "gradient")
        run.finish()
        r.traces += 1
        r.evaluations += 2
        r.states += len(sc.trace)
        r.transitions += len(sc.trace)
        r.outcome((t["slots"], run.hist))
        n += 1
        for p in range(len(ch), len(sc.trace)):
            for alt in range(sc.trace[p][0] + 1, sc.trace[p][1]):
                stack.append([c for c, _ in sc.trace[:p]] + [alt])
        if r.violations:
            return
    r.notes["schedules"] = r.notes.get("schedules", 0) + n
    if listing(root) != keep or dirs(root) != keepd:
        r.violate("leak", "files left behind", left=sorted(listing(root) - keep))


def run(t, r, tier, seed):
    {"hist": hist, "threads": threads}[t["kind"]](t, r)
