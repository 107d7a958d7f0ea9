"""Check runner: enumerates tasks, runs each in its own forked process,
collects counts, reports violations, writes evidence and replay artefacts."""

import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "replays"
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.jsonl"
TASK_LIMIT_S = 600


class Result:
    """What one task covered and found."""

    def __init__(self):
        self.states = 0  # distinct (configuration, model state) pairs
        self.transitions = 0  # implementation steps/operations compared
        self.traces = 0  # model traces replayed on the implementation
        self.evaluations = 0  # executions of the implementation
        self.outcomes = set()  # digests of distinct observed outcomes
        self.violations = []
        self.sample = None
        self.notes = {}

    def outcome(self, x):
        self.outcomes.add(hashlib.sha1(repr(x).encode()).hexdigest()[:12])

    def violate(self, key, what, **detail):
        if len(self.violations) < 20:
            self.violations.append({"key": key, "what": what, "detail": detail})

    def close(self, key, got, want, tol, what="", scale=None, **detail):
        """Compares tensors; returns True if equal to tolerance."""
        import torch

        if got.shape != want.shape:
            self.violate(key, f"{what}: shape {tuple(got.shape)} != {tuple(want.shape)}", **detail)
            return False
        if got.numel() == 0:
            return True
        g, w = got.detach().double(), want.detach().double()
        if not torch.isfinite(g).all() and torch.isfinite(w).all():
            self.violate(key, f"{what}: non-finite value", **detail)
            return False
        s = float(scale) if scale is not None else float(w.abs().max())
        d = (g - w).abs()
        m = float(d.max())
        if not m <= tol * s + 1e-300:
            i = int(d.argmax())
            idx = []
            for n in reversed(d.shape):
                idx.append(i % n)
                i //= n
            idx = tuple(reversed(idx))
            self.violate(
                key,
                f"{what}: differs by {m:.3e} (scale {s:.3e}, tolerance {tol:g}) at {idx}: "
                f"got {float(g[idx]):.12g}, expected {float(w[idx]):.12g}",
                **detail,
            )
            return False
        return True


def _child(mod, task, tier, seed, wfd):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    out = {}
    try:
        import torch

        torch.set_num_threads(1)
        torch.manual_seed(seed)
        warnings.simplefilter("ignore")
        r = Result()
        scratch = tempfile.mkdtemp(prefix="task-", dir=os.environ["VERIF_SCRATCH"])
        task = dict(task)
        task["_scratch"] = scratch
        old = os.getcwd()
        os.chdir(scratch)
        try:
            if task.get("kind") == "compose":
                mod.COMBINED[1](task, r)
            else:
                mod.run(task, r, tier, seed)
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            r.violate(f"exception:{type(e).__name__}", f"{type(e).__name__}: {e}", traceback=tb[-4000:])
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
        out = {k: getattr(r, k) for k in ("states", "transitions", "traces", "evaluations",
                                          "outcomes", "violations", "sample", "notes")}
    except BaseException as e:  # noqa: BLE001
        out = {"error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-4000:]}
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(out, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_tasks(mod, tasks, tier, seed, workers, deadline=None):
    """Runs tasks in forked children. Yields (task, out)."""
    pending = list(reversed(tasks))
    live = {}
    while pending or live:
        while pending and len(live) < workers:
            t = pending.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _child(mod, t, tier, seed, w)
            os.close(w)
            live[r] = [pid, t, bytearray(), time.time()]
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd][2] += chunk
                continue
            pid, t, buf, t0 = live.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            try:
                out = pickle.loads(bytes(buf))
            except Exception:  # noqa: BLE001
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                out = {"crash": f"process ended by signal {sig}" if sig else
                       f"process exited with status {status}"}
                lim = getattr(mod, "crash_detail", None)
                if lim:
                    out["crash"] += " " + lim(pid)
            out["wall"] = time.time() - t0
            yield t, out
        for fd, (pid, t, buf, t0) in list(live.items()):
            if time.time() - t0 > TASK_LIMIT_S:
                os.kill(pid, signal.SIGKILL)


def load_known(pid):
    known = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d.get("status") == "open":
                    known[d["key"]] = d
    return known


def task_id(task):
    return hashlib.sha1(json.dumps(task, sort_keys=True).encode()).hexdigest()[:10]


def main(pid, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    only = None
    verbose = False
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
            i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] == "-v":
            verbose = True
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    mod = importlib.import_module(f"checks.{pid.lower()}")
    if replay:
        rec = json.loads(Path(replay).read_text())
        tier, seed = rec["tier"], rec["seed"]

    from vlib import build

    build.BUILD.mkdir(parents=True, exist_ok=True)
    try:
        stage = build.stage(getattr(mod, "FLAVOUR", "plain"), **getattr(mod, "BUILD", {}))
    except build.BuildError as e:
        print("build failed:", e)
        return 2
    scratch = tempfile.mkdtemp(prefix="scratch-", dir=build.BUILD)
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["VERIF_STAGE"] = str(stage)
    rc = 2
    try:
        if hasattr(mod, "reexec"):
            # explore in a child process with the environment the check needs
            code, env = mod.reexec(stage)
            args = [pid, tier, seed, rec["tasks"] if replay else None, only, verbose, t0]
            rc = subprocess.run([sys.executable, "-s", "-c", code, json.dumps(args)], env=env).returncode
            if rc not in (0, 1):
                print("exploration process ended with status", rc)
            return rc
        sys.path.insert(0, str(stage))
        warnings.simplefilter("ignore")
        import torch

        torch.set_num_threads(1)
        import deepwave

        assert str(Path(deepwave.__file__).resolve()).startswith(str(Path(stage).resolve())), deepwave.__file__
        rc = _explore(pid, mod, tier, seed, rec["tasks"] if replay else None, only, verbose, t0)
    finally:
        shutil.rmtree(stage, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _explore(pid, mod, tier, seed, replay_tasks, only, verbose, t0):
    bounds = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    tasks = replay_tasks or mod.tasks(tier, seed)
    if hasattr(mod, "COMBINED"):
        more, text = mod.COMBINED[0](tier)
        bounds += "; " + text
        tasks = tasks if replay_tasks else more + tasks
    if only:
        tasks = [t for t in tasks if only in json.dumps(t)]
    workers = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    known = load_known(pid)
    tot = Result()
    samples, viol, errors, hits = [], [], [], {}
    slow = []
    for t, out in run_tasks(mod, tasks, tier, seed, workers):
        slow.append((round(out.get("wall", 0), 2), json.dumps(t)[:160]))
        if "error" in out:
            errors.append((t, out))
            continue
        if "crash" in out:
            viol.append((t, {"key": "crash", "what": out["crash"], "detail": {}}))
            continue
        tot.states += out["states"]
        tot.transitions += out["transitions"]
        tot.traces += out["traces"]
        tot.evaluations += out["evaluations"]
        tot.outcomes |= out["outcomes"]
        for k, v in out["notes"].items():
            tot.notes[k] = tot.notes.get(k, 0) + v
        if out["sample"] is not None and len(samples) < 6:
            samples.append({"task": t, "observed": out["sample"]})
        for v in out["violations"]:
            if v["key"] in known:
                hits[v["key"]] = v
            else:
                viol.append((t, v))
        if viol and os.environ.get("VERIF_FAILFAST"):
            break
    if verbose:
        for w, s in sorted(slow, reverse=True)[:15]:
            print("   ", w, s)
    for k in hits:
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    for t, out in errors[:5]:
        print("harness error in", t, out["error"], out["tb"])
    wall = time.time() - t0
    cov = {
        "tasks": len(tasks),
        "states": tot.states,
        "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "evaluations": tot.evaluations,
        "distinct_nontrivial": len(tot.outcomes),
        "rule": mod.RULE,
        "bounds": bounds,
        "exhaustive": bool(getattr(mod, "EXHAUSTIVE", True)) and not errors and not only,
        "samples": samples or [{"task": tasks[0]}],
    }
    cov.update(tot.notes)
    if not only and replay_tasks is None:
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{pid}.json").write_text(json.dumps({
            "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
            "violations": len(viol),
        }, indent=1))
    print(f"{pid} {tier}: {len(tasks)} tasks, {tot.states} states, {tot.transitions} transitions, "
          f"{tot.traces} traces, {tot.evaluations} executions, {len(tot.outcomes)} distinct outcomes, "
          f"{len(viol)} violations, {wall:.1f}s")
    if viol:
        REPLAYS.mkdir(exist_ok=True)
        by_task = {}
        for t, v in viol:
            by_task.setdefault(task_id(t), (t, []))[1].append(v)
        for n, (tid, (t, vs)) in enumerate(by_task.items()):
            path = REPLAYS / f"{pid}-{tid}.json"
            path.write_text(json.dumps({"property": pid, "tier": tier, "seed": seed, "tasks": [t],
                                        "violations": vs}, indent=1, default=str))
            if n < 5:
                print(f"VIOLATION property={pid} replay={path}")
                print("   ", json.dumps(t)[:300])
                for v in vs[:3]:
                    print("    ", v["key"], "|", str(v["what"])[:400])
                    if v.get("detail", {}).get("traceback") and n < 2:
                        print(v["detail"]["traceback"][-1500:])
        if len(by_task) > 5:
            print(f"    ... and {len(by_task) - 5} more violating configurations")
        return 1
    if errors:
        return 2
    return 0
