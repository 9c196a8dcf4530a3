"""Random worlds: structures, paths, labels, and the independent reference readers."""

from __future__ import annotations

import hashlib

import numpy as np

from .elements import NUMBER, SYMBOL


def rng_of(*parts):
    """A numpy generator determined by the parts alone."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "big"))


# --------------------------------------------------------------------------- comparison
def same(a, b, atol=0.0, rtol=0.0):
    """Same shape, no NaN, equal within the tolerance."""
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def same_mod1(a, b, atol=0.0):
    """Equal fractional coordinates up to whole lattice translations."""
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = a - b
    return bool(np.all(np.abs(d - np.round(d)) <= atol))


def diff(a, b):
    """Short description of how two arrays differ."""
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return "not numeric"
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    bad = np.abs(a - b)
    bad = np.where(np.isnan(bad), np.inf, bad)
    if bad.size == 0:
        return "empty"
    i = np.unravel_index(np.argmax(bad), bad.shape)
    return f"largest deviation {bad[i]:.3g} at {tuple(int(x) for x in i)}: {a[i]!r} instead of {b[i]!r}"


# --------------------------------------------------------------------------- structures
LATTICES = ["cubic", "tetragonal", "ortho", "hex", "mono", "tri", "fcc", "rhomb", "left", "large", "small"]


def lattice(kind, r):
    a, b, c = r.uniform(3.0, 9.0, size=3)
    if kind == "cubic":
        return np.eye(3) * a
    if kind == "tetragonal":
        return np.diag([a, a, c])
    if kind == "ortho":
        return np.diag([a, b, c])
    if kind == "hex":
        return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    if kind == "mono":
        return np.array([[a, 0, 0], [0, b, 0], [r.uniform(-2, 2), 0, c]])
    if kind == "fcc":
        return np.array([[0, a, a], [a, 0, a], [a, a, 0]])
    if kind == "rhomb":
        return np.array([[a, 1, 1], [1, a, 1], [1, 1, a]])
    if kind == "left":
        m = np.array([[0, a, 0.3], [b, 0, 0.1], [0.2, 0, c]])
        return m if np.linalg.det(m) < 0 else m[[1, 0, 2]]
    if kind == "large":
        return r.uniform(-40, 40, size=(3, 3)) + np.eye(3) * 300
    if kind == "small":
        return np.eye(3) * r.uniform(0.9, 1.5) + r.uniform(0, 0.01, size=(3, 3))
    return np.array([[a, 0, 0], [r.uniform(-1, 1), b, 0], [r.uniform(-1, 1), r.uniform(-1, 1), c]])


def species(r, natoms, nspecies, pool=None):
    """Grouped atomic numbers."""
    nspecies = max(1, min(nspecies, natoms))
    pool = list(pool if pool is not None else range(1, 119))
    kinds = [pool[i] for i in r.permutation(len(pool))[:nspecies]]
    nspecies = len(kinds)
    cuts = sorted(int(x) + 1 for x in r.permutation(natoms - 1)[:nspecies - 1])
    bounds = [0] + cuts + [natoms]
    numbers = []
    for kind, lo, hi in zip(kinds, bounds, bounds[1:]):
        numbers += [int(kind)] * (hi - lo)
    return numbers


SPECIAL = [0.0, 1.0, 0.5, 1 / 3, 2 / 3, 0.25, 1e-16, 1e-17, 1 - 2.0 ** -53, 5e-17, 0.1 + 0.2,
           1e-10, 0.9999999999999999]


def coordinates(r, shape, special=0.1):
    x = r.uniform(0, 1, size=shape)
    pick = r.uniform(size=shape) < special
    table = np.array(SPECIAL)[r.integers(0, len(SPECIAL), size=shape)]
    return np.where(pick, table, x)


def structure(spec):
    """spec: {"n", "kinds", "lattice", "seed", "special"} -> lattice, numbers, positions."""
    r = rng_of("structure", spec["seed"])
    L = lattice(spec["lattice"], r)
    Z = species(r, spec["n"], spec.get("kinds", 2))
    X = coordinates(r, (spec["n"], 3), spec.get("special", 0.1))
    return L, Z, X


def structure_spec(rng, max_atoms=40, special=None):
    """Random structure spec from a `random.Random`."""
    roll = rng.random()
    if roll < 0.15:
        n = 1
    elif roll < 0.8:
        n = rng.randint(2, min(12, max_atoms))
    else:
        n = rng.randint(2, max_atoms)
    return {"n": n, "kinds": rng.choice([1, 1, 2, 2, 3, 5, 12]),
            "lattice": rng.choice(LATTICES), "seed": rng.randrange(1 << 30),
            "special": rng.choice([0.0, 0.1, 0.5, 1.0]) if special is None else special}


LABELS = [None, "", "POSCAR", "  leading", "α-TiO₂ ✓", "with\nnewline", "tab\tand 'quotes'",
          "Direct", "1.0", "back\\slash", "x" * 9000, "\r\n", "\udc80lone", "Ti4 O8\x00nul",
          "\u2028sep", "\x85nel", "\x0cff"]


# --------------------------------------------------------------------------- readers
class Malformed(Exception):
    """The independent reader cannot make sense of a file."""


def parse_header(lines):
    try:
        scale = float(lines[1])
        L = np.array([[float(x) for x in lines[i].split()] for i in (2, 3, 4)])
        if L.shape != (3, 3):
            raise Malformed("lattice")
        symbols = lines[5].split()
        counts = [int(x) for x in lines[6].split()]
        if len(symbols) != len(counts) or not symbols:
            raise Malformed("species")
        Z = []
        for s, c in zip(symbols, counts):
            Z += [NUMBER[s]] * c
        return L * scale, Z
    except (ValueError, IndexError, KeyError) as exc:
        raise Malformed(f"header: {exc}") from exc


def parse_poscar(data: bytes):
    """Strict reader of the POSCARs the library writes: one structure, nothing else."""
    try:
        lines = data.decode("utf-8").split("\n")
    except UnicodeDecodeError as exc:
        raise Malformed(str(exc)) from exc
    if lines[-1] != "":
        raise Malformed("last line is not terminated")
    lines = lines[:-1]
    L, Z = parse_header(lines)
    if len(lines) != 8 + len(Z):
        raise Malformed(f"{len(lines)} lines for {len(Z)} atoms")
    if lines[7].strip().lower()[:1] != "d":
        raise Malformed("coordinate format")
    try:
        X = np.array([[float(x) for x in line.split()] for line in lines[8:]])
    except ValueError as exc:
        raise Malformed(str(exc)) from exc
    if X.shape != (len(Z), 3):
        raise Malformed(f"positions {X.shape}")
    return L, Z, X


def parse_xdatcar(data: bytes, partial=False):
    """Strict reader of XDATCARs; with `partial` the last configuration may be cut."""
    try:
        lines = data.decode("utf-8").split("\n")
    except UnicodeDecodeError as exc:
        raise Malformed(str(exc)) from exc
    if lines[-1] != "" and not partial:
        raise Malformed("last line is not terminated")
    lines = lines[:-1]
    L, Z = parse_header(lines)
    body = lines[7:]
    n = len(Z)
    configs = []
    if len(body) % (n + 1) and not partial:
        raise Malformed("number of lines")
    for k in range(len(body) // (n + 1)):
        block = body[k * (n + 1):(k + 1) * (n + 1)]
        words = block[0].replace("=", " = ").split()
        if words[0].lower()[:1] != "d" or int(words[-1]) != k + 1:
            raise Malformed("configuration line " + block[0][:40])
        try:
            X = np.array([[float(x) for x in line.split()] for line in block[1:]])
        except ValueError as exc:
            raise Malformed(str(exc)) from exc
        if X.shape != (n, 3):
            raise Malformed(f"positions {X.shape}")
        configs.append(X)
    return L, Z, np.array(configs).reshape(-1, n, 3)


__all__ = [n for n in dir() if not n.startswith("_")]
_ = SYMBOL
