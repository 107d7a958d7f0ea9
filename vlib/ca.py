"""Covering arrays: deterministic greedy construction, checked for completeness.

`rows(sizes, t, salt)` returns rows (tuples of value indices) such that every
combination of values of every t factors occurs in at least one row."""
import itertools
import json
import random
from pathlib import Path

import torch

CACHE = Path(__file__).with_name("ca.json")


def covered(sizes, t, rows):
    """True if every t-tuple of values occurs (exhaustive check)."""
    M = torch.tensor(rows)
    for c in itertools.combinations(range(len(sizes)), t):
        code = torch.zeros(len(rows), dtype=torch.long)
        n = 1
        for f in c:
            code = code * sizes[f] + M[:, f]
            n *= sizes[f]
        if len(torch.unique(code)) != n:
            return False
    return True


def build(sizes, t, salt):
    rng = random.Random(1000 * t + salt)
    k = len(sizes)
    todo = {}  # (factor, value) -> set of remaining tuples (as frozen sorted pairs)
    left = set()
    for c in itertools.combinations(range(k), t):
        for v in itertools.product(*[range(sizes[f]) for f in c]):
            left.add(tuple(zip(c, v)))
    order = sorted(left)
    rng.shuffle(order)
    ptr = 0
    rows = []
    while left:
        while order[ptr] not in left:
            ptr += 1
        best = None
        for _ in range(4):
            row = dict(order[ptr])
            rest = [f for f in range(k) if f not in row]
            rng.shuffle(rest)
            for f in rest:
                have = sorted(row.items())
                score = []
                for v in range(sizes[f]):
                    s = 0
                    for c in itertools.combinations(have, t - 1):
                        if tuple(sorted(c + ((f, v),))) in left:
                            s += 1
                    score.append((s, rng.random(), v))
                row[f] = max(score)[2]
            new = [c for c in itertools.combinations(sorted(row.items()), t) if c in left]
            if best is None or len(new) > len(best[1]):
                best = (row, new)
            if t > 2:
                break
        left.difference_update(best[1])
        rows.append([best[0][f] for f in range(k)])
    return rows


def rows(sizes, t, salt=0):
    cache = json.loads(CACHE.read_text()) if CACHE.exists() else {}
    key = f"{t}:{salt}:{','.join(map(str, sizes))}"
    got = cache.get(key)
    if got is None:
        got = build(sizes, t, salt)
    assert covered(sizes, t, got), "incomplete covering array"
    return got


if __name__ == "__main__":
    import sys
    from vlib import compose
    sizes = [len(v) for v in compose.FACTORS.values()]
    out = {}
    for t, salts in ((2, range(8)), (3, range(2))):
        for s in salts:
            out[f"{t}:{s}:{','.join(map(str, sizes))}"] = x = build(sizes, t, s)
            print(t, s, len(x), file=sys.stderr)
    CACHE.write_text(json.dumps(out, separators=(",", ":")) + "\n")
