"""Builds deepwave's native library from /repo's current tree and stages an
importable copy of the package next to it (outside /repo).

Every check calls `stage()`; nothing that /opt/vp/build.sh produced is used.
Flavours:
  plain   ordinary build (OpenMP on, real libgomp)
  sched   -fopenmp + compiler memory-access instrumentation (-fsanitize=thread)
          linked against /verif/shim/sched.c instead of libgomp and libtsan:
          all parallel regions are run by our own scheduler, and every memory
          access is logged
  asan    plain + address sanitizer (the process must preload libasan)
  io      plain + every file operation routed through /verif/shim/iofault.c
"""

import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src" / "deepwave"
BUILD = VERIF / "build"
CACHE = BUILD / "cache"
PDES = ("scalar", "scalar_born", "acoustic", "elastic")
CC = "gcc"

IO_WRAPS = (
    "fopen fopen64 fclose fread fwrite fseek fseeko fseeko64 ftell ftello fflush "
    "open open64 close read write pread pwrite pread64 pwrite64 lseek lseek64 "
    "ftruncate mmap"
).split()
SCHED_WRAPS = "memcpy memmove memset fread fwrite free realloc".split()


class BuildError(RuntimeError):
    pass


def _flags(flavour, opt):
    f = [f"-O{opt}", "-fPIC", "-fopenmp", "-w"]
    if flavour == "sched":
        f += ["-fsanitize=thread", "-g1"]
    if flavour == "asan":
        f += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
    return f


def _source_digest():
    h = hashlib.sha256()
    for p in sorted(SRC.glob("*")):
        if p.suffix in (".c", ".h"):
            h.update(p.name.encode())
            h.update(p.read_bytes())
    return h


def objects(pdes, ndims, accs, dtypes):
    """(source, ndim, accuracy, dtype) of every object the library needs."""
    jobs = []
    for src in sorted(SRC.glob("*.c")):
        for nd in ndims:
            for dt in dtypes:
                if src.stem in PDES:
                    if src.stem in pdes:
                        jobs += [(src, nd, a, dt) for a in accs]
                else:
                    jobs.append((src, nd, 2, dt))
    return jobs


def build_lib(
    flavour="plain",
    pdes=PDES,
    ndims=(1, 2, 3),
    accs=(2, 4, 6, 8),
    dtypes=("double", "float"),
    opt=0,
):
    """Returns the path of a freshly built (or content-identical cached) .so."""
    h = _source_digest()
    shims = {"sched": [VERIF / "shim" / "sched.c"], "io": [VERIF / "shim" / "iofault.c"],
             "asan": [VERIF / "shim" / "fill.c"]}
    shim = shims.get(flavour, [])
    for s in shim:
        h.update(s.read_bytes())
    h.update(repr((flavour, pdes, ndims, accs, dtypes, opt, CC)).encode())
    CACHE.mkdir(parents=True, exist_ok=True)
    out = CACHE / f"{flavour}-{h.hexdigest()[:24]}.so"
    if out.exists():
        os.utime(out)
        return out
    _prune()
    tmp = Path(tempfile.mkdtemp(prefix="obj-", dir=BUILD))
    try:
        jobs = objects(pdes, ndims, accs, dtypes)
        # big ones first
        jobs.sort(key=lambda j: (-j[1], j[0].stem != "elastic"))

        def comp(j):
            src, nd, acc, dt = j
            o = tmp / f"{src.stem}_{nd}_{acc}_{dt}.o"
            cmd = [CC, *_flags(flavour, opt), f"-DDW_NDIM={nd}", f"-DDW_ACCURACY={acc}",
                   f"-DDW_DTYPE={dt}", "-DDW_DEVICE=cpu", "-I", str(SRC), "-c", str(src),
                   "-o", str(o)]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{' '.join(cmd)}\n{r.stderr[-3000:]}")
            return str(o)

        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(comp, jobs))
        for s in shim:
            o = tmp / (s.stem + "_shim.o")
            r = subprocess.run([CC, "-O2", "-fPIC", "-w", "-c", str(s), "-o", str(o)],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
            objs.append(str(o))
        link = [CC, "-shared", "-o", str(tmp / "out.so"), *objs, "-lm"]
        if flavour == "sched":
            # anything our run time lacks comes from libgomp, outside any of its teams
            link += ["-Wl,-Bsymbolic", "-fopenmp", "-ldl"]
            link += [f"-Wl,--wrap={s}" for s in SCHED_WRAPS]
        elif flavour == "asan":
            link += ["-fopenmp", "-fsanitize=address"]
        else:
            link += ["-fopenmp"]
        if flavour == "io":
            link += [f"-Wl,--wrap={s}" for s in IO_WRAPS]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.replace(tmp / "out.so", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def _prune(keep=10):
    libs = sorted(CACHE.glob("*.so"), key=lambda p: p.stat().st_mtime)
    for p in libs[:-keep] if len(libs) > keep else []:
        p.unlink(missing_ok=True)


def stage(flavour="plain", **kw):
    """Creates a private importable copy of the package with our library.

    Returns the directory to put on sys.path; the caller removes it.
    """
    lib = build_lib(flavour, **kw)
    BUILD.mkdir(parents=True, exist_ok=True)
    d = Path(tempfile.mkdtemp(prefix="stage-", dir=BUILD))
    pkg = d / "deepwave"
    pkg.mkdir()
    for p in SRC.rglob("*.py"):
        t = pkg / p.relative_to(SRC)
        t.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(p, t)
    shutil.copyfile(lib, pkg / "libdeepwave_C.so")
    return d


if __name__ == "__main__":
    import time

    for fl in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(fl, build_lib(fl), round(time.time() - t, 1), "s")
