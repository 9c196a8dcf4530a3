"""Shared pieces of the checks: entry points of the library, deliveries, comparisons."""

from __future__ import annotations

import os
from pathlib import Path

import numpy as np

from sim.world import (diff, lattice, parse_poscar, parse_xdatcar, rng_of, same, same_mod1,  # noqa: F401
                       structure, structure_spec, coordinates, species, LABELS, LATTICES,
                       Malformed)
from sim.kernel import Violation, Outcome  # noqa: F401
from sim import vasp  # noqa: F401

import ramannoodle.io.generic as generic
import ramannoodle.io.vasp as vio
from ramannoodle.structure import ReferenceStructure
from ramannoodle.exceptions import (InvalidFileException, SymmetryException,  # noqa: F401
                                    IncompatibleStructureException)

REAL_IO = ["ramannoodle.io (poscar, xdatcar, outcar, vasprun, generic)", "ramannoodle.structure",
           "CPython io stack", "C library and kernel file system (tmpfs)"]
STUB_IO = ["results of open/read/write/close/stat/... system calls on the simulated disk "
           "(decided per call by the simulator: pass, short transfer, errno, crash)",
           "time (simulated clock)"]

WRITE_ERRNO = ["ENOSPC", "EIO", "EDQUOT", "EFBIG"]
READ_ERRNO = ["EIO", "ESTALE", "EISDIR", "ETIMEDOUT"]
OPEN_W_ERRNO = ["EACCES", "ENOSPC", "EMFILE", "ENFILE", "EROFS", "EIO", "ENOENT", "EPERM"]
OPEN_R_ERRNO = ["EACCES", "EMFILE", "ENFILE", "EIO", "ELOOP", "ENOENT", "EPERM"]
CLOSE_ERRNO = ["EIO", "ENOSPC", "EDQUOT"]


def delivery(rng, strength=0.7):
    """How the storage moves bytes: sizes of transfers, interruptions, stalls."""
    if rng.random() > strength:
        return {}
    d = {"seed": rng.randrange(1 << 30)}
    for way in ("read", "write"):
        roll = rng.random()
        if roll < 0.3:
            d[way] = ["random", rng.choice([7, 64, 600, 5000])]
        elif roll < 0.5:
            d[way] = ["fixed", rng.choice([13, 100, 512, 1000, 4096])]
    if rng.random() < 0.4:
        d["eintr"] = rng.choice([0.02, 0.2, 0.5])
    if rng.random() < 0.2:
        d["stall"] = rng.choice([0.05, 0.3])
    return d


def capped(d, size, transfers=600):
    """Keeps the number of storage calls of one transfer bounded for large files."""
    if not d:
        return d
    d = dict(d)
    for way in ("read", "write"):
        if way in d and d[way][1] < size // transfers:
            d[way] = [d[way][0], size // transfers]
    return d


NAMES = ["POSCAR", "a/b/POSCAR", "sp ace/Å-file.vasp", "x.xdatcar", "deep/er/still/out",
         "dir.with.dots/f", "-dash", "~tilde", "%d{}", "UPPER"]


def spell(ctx, name, how):
    """One of the ways to name a file; creates its directory."""
    full = ctx.path(name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if how == "path":
        return Path(full)
    if how == "rel":
        return name
    if how == "relpath":
        return Path(name)
    if how == "dotted":
        return os.path.join(ctx.root, ".", os.path.dirname(name), ".", os.path.basename(name))
    return full


SPELL = ["str", "path", "rel", "relpath", "dotted"]


def write_structure(via, L, Z, X, path, overwrite, label=None):
    """`overwrite` None: left to its default."""
    kw = {} if overwrite is None else {"overwrite": overwrite}
    if via == "poscar":
        if label is not None:
            kw["label"] = label
        return vio.poscar.write_structure(L, Z, X, path, **kw)
    return generic.write_structure(L, Z, X, path, "xdatcar" if via == "generic-x" else "poscar", **kw)


def write_trajectory(via, L, Z, XS, path, overwrite, label=None):
    kw = {} if overwrite is None else {"overwrite": overwrite}
    if via == "xdatcar":
        if label is not None:
            kw["label"] = label
        return vio.xdatcar.write_trajectory(L, Z, XS, path, **kw)
    return generic.write_trajectory(L, Z, XS, path, "xdatcar", **kw)


def trajectory_of(spec, steps):
    """Configurations for write_trajectory."""
    L, Z, X = structure(spec)
    r = rng_of("configs", spec["seed"], steps)
    return L, Z, coordinates(r, (steps, spec["n"], 3), spec.get("special", 0.1))


TOL = dict(atol=1.01e-16, rtol=2.3e-16)


def check_structure_bytes(ctx, data, L, Z, X, what, code="content"):
    ctx.require(data is not None, code, f"{what}: file is missing")
    try:
        gL, gZ, gX = parse_poscar(data)
    except Malformed as exc:
        raise Violation(code, f"{what}: file is malformed: {exc}") from None
    ctx.require(gZ == list(Z), code, f"{what}: atoms differ")
    ctx.require(same(gL, L, **TOL), code, f"{what}: lattice: {diff(gL, L)}")
    ctx.require(same(gX, X, **TOL), code, f"{what}: positions: {diff(gX, X)}")


def check_trajectory_bytes(ctx, data, L, Z, XS, what, code="content"):
    ctx.require(data is not None, code, f"{what}: file is missing")
    try:
        gL, gZ, gX = parse_xdatcar(data)
    except Malformed as exc:
        raise Violation(code, f"{what}: file is malformed: {exc}") from None
    ctx.require(gZ == list(Z), code, f"{what}: atoms differ")
    ctx.require(same(gL, L, **TOL), code, f"{what}: lattice: {diff(gL, L)}")
    ctx.require(same(gX, XS, **TOL), code, f"{what}: configurations: {diff(gX, XS)}")


def structure_is(data, L, Z, X):
    """Does a file hold exactly this structure?"""
    if data is None:
        return False
    try:
        gL, gZ, gX = parse_poscar(data)
    except Malformed:
        return False
    return gZ == list(Z) and same(gL, L, **TOL) and same(gX, X, **TOL)


def trajectory_is(data, L, Z, XS):
    if data is None:
        return False
    try:
        gL, gZ, gX = parse_xdatcar(data)
    except Malformed:
        return False
    return gZ == list(Z) and same(gL, L, **TOL) and same(gX, XS, **TOL)


def clean(ctx, what):
    """No descriptor may stay open after a call."""
    left = ctx.leaked()
    ctx.require(not left, "leak", f"{what}: files left open: {left}")
    ctx.require(not ctx.held, "leak", f"{what}: files still open when the exception arrives: {ctx.held}")


def is_os_error(exc, err):
    """The operating system's error, as Python reports it."""
    import errno as errno_module
    return isinstance(exc, OSError) and exc.errno == getattr(errno_module, err)


def ref(c, seed=None):
    """The crystal as reference structure, sometimes with a coordinate of one instead of zero."""
    X = c.X.copy()
    if seed is not None:
        r = rng_of("images", seed)
        if r.uniform() < 0.15:
            X[(X == 0) & (r.uniform(size=X.shape) < 0.5)] = 1.0
    return ReferenceStructure(list(c.Z), c.L.copy(), X)


# --------------------------------------------------------------------------- write requests
def gen_write(rng, max_atoms=40, max_size=1500):
    """Plain data describing one structure or trajectory to write."""
    spec = structure_spec(rng, max_atoms=max_atoms)
    w = {"kind": rng.choice(["s", "t"]), "spec": spec, "label": rng.randrange(len(LABELS))}
    if w["kind"] == "s":
        w["via"] = rng.choice(["poscar", "generic", "generic-x"])
    else:
        w["via"] = rng.choice(["xdatcar", "generic"])
        w["configs"] = rng.randint(1, max(1, min(60, max_size // spec["n"])))
        if rng.random() < 0.1:
            spec["n"] = rng.choice([1, 1, 2, 3])
            w["configs"] = rng.choice([99, 100, 101, 127, 128, 129, 200, 256, 257])
    return w


def shrink_write(w):
    n = w["spec"]["n"]
    for m in (1, 2, n // 2, n - 1):
        if 0 < m < n:
            yield {**w, "spec": {**w["spec"], "n": m}}
    k = w.get("configs", 1)
    for m in (1, 2, k // 2, k - 1):
        if 0 < m < k:
            yield {**w, "configs": m}
    if w["label"]:
        yield {**w, "label": 0}


class Write:
    """A write request with its data."""

    def __init__(self, w):
        self.w = w
        if w["kind"] == "s":
            self.L, self.Z, self.X = structure(w["spec"])
        else:
            self.L, self.Z, self.X = trajectory_of(w["spec"], w["configs"])
        self.size = 250 + self.X.size * 21
        self.what = f"{'structure' if w['kind'] == 's' else 'trajectory'} via {w['via']}, shape {self.X.shape}"

    def call(self, ctx, path, overwrite):
        fn = write_structure if self.w["kind"] == "s" else write_trajectory
        return ctx.call("write", fn, self.w["via"], self.L, list(self.Z), self.X, path, overwrite,
                        LABELS[self.w["label"]])

    def matches(self, data):
        return (structure_is if self.w["kind"] == "s" else trajectory_is)(data, self.L, self.Z, self.X)

    def check(self, ctx, data, what, code="content"):
        fn = check_structure_bytes if self.w["kind"] == "s" else check_trajectory_bytes
        fn(ctx, data, self.L, self.Z, self.X, f"{what} ({self.what})", code)


def position(rng):
    """Where in a file something goes wrong, as data (resolved against its size)."""
    roll = rng.random()
    if roll < 0.15:
        return {"abs": rng.choice([0, 1, 2, 100])}
    if roll < 0.4:
        return {"abs": 8192 * rng.randint(1, 4) + rng.choice([-1, 0, 1])}
    if roll < 0.55:
        return {"end": rng.choice([0, 1, 2, 30, 300])}
    return {"frac": round(rng.random(), 6)}


def resolve(pos, size):
    if "abs" in pos:
        return pos["abs"]
    if "end" in pos:
        return max(0, size - pos["end"])
    return int(pos["frac"] * size)


def gen_write_fault(rng, crash=True):
    """A storage fault of a write; positions are resolved when the size is known."""
    roll = rng.random()
    if roll < 0.12:
        return {"op": "open", "at": 0, "err": rng.choice(OPEN_W_ERRNO)}
    if roll < 0.5:
        return {"op": "write", "pos": position(rng), "err": rng.choice(WRITE_ERRNO),
                "sticky": rng.random() < 0.7}
    if roll < 0.58:
        return {"op": "write", "at": rng.randint(0, 3), "err": rng.choice(WRITE_ERRNO)}
    if roll < 0.72:
        return {"op": "close", "at": 0, "err": rng.choice(CLOSE_ERRNO)}
    if not crash or roll < 0.76:
        return {"op": rng.choice(["sync", "rename", "truncate", "stat", "unlink", "link", "chmod"]),
                "at": 0, "err": rng.choice(WRITE_ERRNO)}
    if roll < 0.9:
        return {"op": "write", "pos": position(rng), "crash": True}
    return {"op": "any", "at": rng.randint(0, 6), "crash": True, "arg": rng.choice([0, 1, 100, 5000])}


def resolve_fault(f, size):
    f = dict(f)
    if "pos" in f:
        f["bytes"] = resolve(f.pop("pos"), size)
    return f


def fired_errors(ctx):
    return [f["err"] for f in ctx.faults if f["hits"] and f.get("err") and f["err"] != "EINTR"]


def neighbours(name):
    """Files next to the target that no write may touch."""
    base = name.rsplit("/", 1)[-1]
    folder = name[:-len(base)]
    return {folder + other: f"neighbour {k}\n".encode() * (k + 1) for k, other in enumerate(
        [base + "~", base + ".tmp", "." + base + ".swp", base + ".bak", base + "2", "zz/" + base,
         "tmp", base + ".lock"])}


def files(tree):
    return {k: v for k, v in tree.items() if not k.endswith("/")}
