"""
Builds PyVRP's two native extensions from /repo's current working tree into a
git-ignored folder of /verif, and lays out an overlay package in which every
Python file is a symlink into /repo. Nothing in /repo is written.

Variants:
  std   core C++ -O1 with assertions and libstdc++ assertions (g++)
  asan  AddressSanitizer + UndefinedBehaviorSanitizer (clang)
  tsan  ThreadSanitizer (clang), with the debug log messages compiled in
"""

from __future__ import annotations

import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
OUT = VERIF / ".build"

DOC_STUB = '#pragma once\n#define DOC(...) ""\n'


class BuildError(Exception):
    pass


def _which(name):
    return shutil.which(name)


def _variant(variant: str):
    """Returns (core compiler+flags, bindings compiler+flags, link flags)."""
    common = [
        "-std=c++20",
        "-fPIC",
        "-w",
        "-DSPDLOG_USE_STD_FORMAT",
        "-DPYVRP_LOG_LEVEL=2",
        "-D_GLIBCXX_ASSERTIONS=1",
        "-UNDEBUG",
    ]
    gxx = _which("g++") or _which("c++")
    clang = _which("clang++")
    if variant == "std":
        # Uninitialised variables get a pattern rather than leftover zeros.
        core = [gxx, *common, "-O1", "-ftrivial-auto-var-init=pattern"]
        bind = [clang or gxx, *common, "-O0", "-fvisibility=hidden"]
        return core, bind, []
    if variant == "asan":
        san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
               "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
               "-gline-tables-only"]
        core = [clang, *common, "-O1", *san]
        bind = [clang, *common, "-O0", "-fsanitize=address",
                "-fno-omit-frame-pointer", "-fvisibility=hidden",
                "-gline-tables-only"]
        link = ["-fsanitize=address,undefined", "-shared-libasan"]
        return core, bind, link
    if variant == "tsan":
        common = [f.replace("LOG_LEVEL=2", "LOG_LEVEL=0") for f in common]
        san = ["-fsanitize=thread", "-fno-omit-frame-pointer",
               "-gline-tables-only"]
        core = [clang, *common, "-O1", *san]
        bind = [clang, *common, "-O0", *san, "-fvisibility=hidden"]
        return core, bind, ["-fsanitize=thread", "-shared-libsan"]
    raise ValueError(variant)


def _sha(*parts: bytes) -> str:
    h = hashlib.sha256()
    for p in parts:
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:20]


def includes():
    import pybind11

    return [
        f"-I{REPO}/pyvrp/cpp",
        f"-I{sysconfig.get_paths()['include']}",
        f"-I{pybind11.get_include()}",
    ]


def sources():
    cpp = REPO / "pyvrp" / "cpp"
    core = sorted(p for p in cpp.glob("*.cpp") if p.name != "bindings.cpp")
    search = sorted(
        p for p in (cpp / "search").glob("*.cpp") if p.name != "bindings.cpp"
    )
    return core, search, cpp / "bindings.cpp", cpp / "search" / "bindings.cpp"


def headers_hash() -> str:
    cpp = REPO / "pyvrp" / "cpp"
    parts = []
    for p in sorted(cpp.rglob("*")):
        if p.is_file() and p.suffix not in (".cpp",):
            parts += [str(p.relative_to(cpp)).encode(), p.read_bytes()]
    return _sha(*parts)


def compile_objects(jobs, objdir: pathlib.Path):
    """jobs: list of (source path, command prefix). Returns object paths."""
    objdir.mkdir(parents=True, exist_ok=True)
    hdr = headers_hash()
    todo, objs = [], []
    for src, cmd in jobs:
        key = _sha(hdr.encode(), str(src).encode(), src.read_bytes(),
                   "\0".join(cmd).encode())
        obj = objdir / f"{src.parent.name}-{src.stem}-{key}.o"
        objs.append(obj)
        if not obj.exists():
            todo.append((src, cmd, obj))

    def one(item):
        src, cmd, obj = item
        tmp = obj.with_suffix(f".{os.getpid()}.tmp.o")
        proc = subprocess.run(
            [*cmd, "-c", str(src), "-o", str(tmp)],
            capture_output=True, text=True,
        )
        if proc.returncode:
            return f"{src}: {proc.stderr[-4000:]}"
        tmp.rename(obj)
        return None

    # Bindings first: they take by far the longest.
    todo.sort(key=lambda it: it[0].name != "bindings.cpp")
    with ThreadPoolExecutor(max(os.cpu_count() or 1, 2)) as pool:
        errors = [e for e in pool.map(one, todo) if e]
    if errors:
        raise BuildError("\n".join(errors))
    return objs


def build(variant: str = "std") -> pathlib.Path:
    """Returns the overlay directory to put first on PYTHONPATH."""
    OUT.mkdir(exist_ok=True)
    with open(OUT / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant)


def _build(variant: str) -> pathlib.Path:
    core_cmd, bind_cmd, link_flags = _variant(variant)
    stub = OUT / "stub"
    stub.mkdir(exist_ok=True)
    for name in ("pyvrp_docs.h", "search_docs.h"):
        if not (stub / name).exists():
            (stub / name).write_text(DOC_STUB)

    inc = [f"-I{stub}", *includes()]
    core, search, bind1, bind2 = sources()
    jobs = [(p, [*core_cmd, *inc]) for p in core + search]
    jobs += [(p, [*bind_cmd, *inc]) for p in (bind1, bind2)]
    objs = compile_objects(jobs, OUT / f"obj-{variant}")
    n1, n2 = len(core), len(search)
    ocore, osearch = objs[:n1], objs[n1 : n1 + n2]
    ob1, ob2 = objs[-2:]

    key = _sha(*[o.name.encode() for o in objs], *map(str.encode, link_flags))
    overlay = OUT / f"pkg-{variant}-{key}"
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    pkg = overlay / "pyvrp"
    links = [
        (pkg / f"_pyvrp{ext}", [ob1, *ocore]),
        (pkg / "search" / f"_search{ext}", [ob2, *osearch, *ocore]),
    ]
    procs = []
    for target, parts in links:
        if target.exists():
            continue
        target.parent.mkdir(parents=True, exist_ok=True)
        tmp = target.with_suffix(".tmp")
        # Static archives in the real build: unreferenced objects are dropped.
        lib = overlay / f"{target.stem}-lib.a"
        subprocess.run(["rm", "-f", str(lib)], check=True)
        subprocess.run(["ar", "rcs", str(lib), *map(str, parts[1:])],
                       check=True)
        cmd = [bind_cmd[0], "-shared", "-o", str(tmp), str(parts[0]),
               str(lib), *link_flags, "-pthread"]
        procs.append((subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True),
                      tmp, target, lib))
    for proc, tmp, target, lib in procs:
        _, err = proc.communicate()
        if proc.returncode:
            raise BuildError(err[-4000:])
        tmp.rename(target)
        lib.unlink()

    # Python files: symlinks into /repo, refreshed on every call.
    src = REPO / "pyvrp"
    for old in pkg.rglob("*.py"):
        old.unlink()
    for p in sorted(src.rglob("*.py")):
        rel = p.relative_to(src)
        if rel.parts[0] == "cpp":
            continue
        dst = pkg / rel
        dst.parent.mkdir(parents=True, exist_ok=True)
        dst.symlink_to(p)

    _prune(variant, set(objs), overlay)
    return overlay


def _prune(variant, keep, overlay):
    """Bounds disk use: keeps the newest few overlays and object files."""
    pkgs = sorted(OUT.glob(f"pkg-{variant}-*"), key=lambda p: p.stat().st_mtime)
    for old in pkgs[:-4]:
        if old != overlay:
            shutil.rmtree(old, ignore_errors=True)
    objs = sorted((OUT / f"obj-{variant}").glob("*.o"),
                  key=lambda p: p.stat().st_mtime)
    for old in objs[:-150]:
        if old not in keep:
            old.unlink(missing_ok=True)


def runtime_env(variant: str, overlay: pathlib.Path) -> dict:
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["PYTHONPATH"] = f"{overlay}:{VERIF}"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MPLBACKEND"] = "Agg"
    env["VERIF_OVERLAY"] = str(overlay)
    env["VERIF_VARIANT"] = variant
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[var] = "1"
    if variant == "std":
        env["MALLOC_PERTURB_"] = "165"  # neither does the heap give zeros
    if variant == "asan":
        rt = subprocess.run(
            ["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"],
            capture_output=True, text=True, check=True).stdout.strip()
        env["LD_PRELOAD"] = rt
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:abort_on_error=1:halt_on_error=1:"
            "detect_stack_use_after_return=1:allocator_may_return_null=1:"
            "handle_abort=1:strict_string_checks=1:"
            "max_free_fill_size=4096:free_fill_byte=85")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    if variant == "tsan":
        rt = subprocess.run(
            ["clang++", "-print-file-name=libclang_rt.tsan-x86_64.so"],
            capture_output=True, text=True, check=True).stdout.strip()
        env["LD_PRELOAD"] = rt
        env["PYTHONMALLOC"] = "malloc"
        env["TSAN_OPTIONS"] = (
            "halt_on_error=1:abort_on_error=0:exitcode=66:"
            "second_deadlock_stack=1:report_signal_unsafe=0:"
            "allocator_may_return_null=1")
    return env


if __name__ == "__main__":
    for name in sys.argv[1:] or ["std"]:
        print(build(name))
