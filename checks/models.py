"""Polarizability models built through every entry point, and their independent truth."""

from __future__ import annotations

import warnings

from .calcs import *  # noqa: F403

from ramannoodle.exceptions import InvalidDOFException
from ramannoodle.pmodel import ARTModel, InterpolationModel

REAL_MODEL = ["ramannoodle.pmodel (InterpolationModel, ARTModel)", "ramannoodle.structure", "ramannoodle.io",
              "numpy, scipy.interpolate, spglib, pymatgen"]
SMALL = ["cscl", "cscl-shifted", "nacl-prim", "hex", "p21", "p-1", "p-1-shifted", "p1", "zincblende-prim", "fcc", "bcc", "hcp"]


def gen_model_crystal(rng, small=False):
    roll = rng.random()
    if roll < 0.3:
        return {"n": rng.randint(1, 3 if small else 5), "kinds": rng.randint(1, 3), "mixed": False,
                "lattice": rng.choice([x for x in LATTICES if x not in ("large", "small")]),
                "seed": rng.randrange(1 << 30)}
    spec = {"proto": rng.choice(SMALL if small else sorted(vasp.PROTOS))}
    if rng.random() < 0.08:
        spec = {"proto": rng.choice(SMALL), "super": rng.choice([[2, 1, 1], [1, 1, 2], [1, 3, 1], [2, 2, 1], [2, 2, 2]])}
    return spec


class World:
    """A crystal, its true polarizability and everything a user would prepare for a model."""

    def __init__(self, spec, seed):
        import spglib
        self.c = c = vasp.crystal(spec)
        self.seed = seed
        self.T = vasp.truth(c, seed)
        d = spglib.get_symmetry((c.L, c.X, c.Z), symprec=1e-5)
        self.ops = []
        for rot, trans in zip(d["rotations"], d["translations"]):
            C = c.L.T @ rot @ np.linalg.inv(c.L.T)
            image = []
            for a in range(c.n):
                delta = rot @ c.X[a] + trans - c.X
                delta -= np.round(delta)
                image.append(int(np.argmin((delta ** 2).sum(1))))
            self.ops.append((C, image))
        r = rng_of("a0", seed)
        raw = r.normal(size=(3, 3)) * 0.3 + np.eye(3) * 5
        raw = (raw + raw.T) / 2
        self.a0 = sum(C @ raw @ C.T for C, _ in self.ops) / len(self.ops)
        self.orbit = [min(im[a] for _, im in self.ops) for a in range(c.n)]

    def second_order(self):
        """Symmetry-adapted quadratic response of single atoms: S[a,i,j,k,l] u_ai u_aj."""
        r = rng_of("second", self.seed)
        S = r.normal(size=(self.c.n, 3, 3, 3, 3))
        S = S + S.transpose(0, 2, 1, 3, 4)
        S = (S + S.transpose(0, 1, 2, 4, 3)) / 4
        out = np.zeros_like(S)
        for C, image in self.ops:
            for a in range(self.c.n):
                out[image[a]] += np.einsum("im,jn,kp,lq,mnpq->ijkl", C, C, C, C, S[a])
        return out / len(self.ops) * 3

    def generic_site(self, a):
        """Only the identity or the inversion fixes atom a: every direction frame works."""
        return all(np.allclose(np.abs(C), np.eye(3)) and abs(abs(np.trace(C)) - 3) < 1e-9
                   for C, im in self.ops if im[a] == a)

    def alpha(self, u):
        """True polarizability for Cartesian displacements u (..., n, 3)."""
        return self.a0 + np.einsum("...ai,aijk->...jk", u, self.T)

    def batch(self, seed, count=4, size=0.15):
        """Fractional positions (also outside the cell) and their displacements."""
        r = rng_of("batch", seed)
        u = r.uniform(-size, size, size=(count, self.c.n, 3))
        X = self.c.X + u @ self.c.inv
        X += r.integers(-1, 2, size=X.shape)
        return X, u


def frame(world, a, seed, tilted):
    """Three orthonormal directions for atom a."""
    r = rng_of("frame", seed, a)
    F = np.eye(3)
    if tilted and world.generic_site(a):
        F, _ = np.linalg.qr(r.normal(size=(3, 3)))
    F = F[r.permutation(3)]
    return F * r.choice([-1.0, 1.0], size=3)[:, None]


ENTRIES = ["array", "array", "outcar", "vasprun.xml", "pymatgen"]
PRECISE = {"array": 2e-8, "pymatgen": 2e-8, "outcar": 6e-5, "vasprun.xml": 6e-5, "poscar": 1e-6, "xdatcar": 1e-6}


def calc_files(ctx, world, tag, displacements, pols, fmt, phonons=None):
    """Output files of the calculations of displaced structures."""
    c, names = world.c, []
    for k, (u, p) in enumerate(zip(displacements, pols)):
        X = c.displaced(u)
        seed = world.seed + k
        if fmt == "outcar":
            text, _ = vasp.outcar(c, X=X, pol=p, seed=seed)
        elif fmt == "vasprun.xml":
            text, _ = vasp.vasprun(c, X=X, pol=p, seed=seed)
        elif fmt == "poscar":
            text, _ = vasp.poscar(c, X=X, seed=seed)
        else:
            text, _ = vasp.xdatcar(c, [X])
        name = f"{tag}/{k}.{fmt}"
        ctx.put(name, text)
        names.append(ctx.path(name))
    return names


def pymatgen_structures(c, displacements):
    import pymatgen.core
    return [pymatgen.core.Structure(c.L, c.symbols(), c.displaced(u)) for u in displacements]


def add(ctx, world, model, kind, entry, unit, amps, pols, tag, order=1, ref_pol=True, norm=1.0, files=None):
    """One addition; `unit` is the Cartesian unit displacement (n, 3) of the parent."""
    c = world.c
    amps = np.array(amps, dtype=float)
    pols = np.array(pols, dtype=float)
    us = [a * unit for a in amps]
    if entry == "array":
        if kind == "art":
            atom = int(np.argmax((unit ** 2).sum(1)))
            return ctx.call(f"add_art {tag}", model.add_art, atom, unit[atom] * norm, amps, pols)
        return ctx.call(f"add_dof {tag}", model.add_dof, unit * norm, amps, pols, order, ref_pol)
    if entry == "pymatgen":
        structures = pymatgen_structures(c, us)
        if kind == "art":
            return ctx.call(f"add_art_from_pymatgen {tag}", model.add_art_from_pymatgen, structures, pols)
        return ctx.call(f"add_dof_from_pymatgen {tag}", model.add_dof_from_pymatgen, structures, pols, order)
    paths = files or calc_files(ctx, world, tag, us, pols, entry)
    if kind == "art":
        return ctx.call(f"add_art_from_files {tag}", model.add_art_from_files, paths, entry)
    return ctx.call(f"add_dof_from_files {tag}", model.add_dof_from_files, paths, entry, order)


def new_model(ctx, world, kind, dummy=False):
    cls = ARTModel if kind == "art" else InterpolationModel
    out = ctx.call("new model", cls, ref(world.c, world.seed), world.a0.copy(), dummy)
    if not out.ok:
        raise RuntimeError(f"cannot create a model: {out.describe()}")
    return out.value


def snapshot(model, X, kind):
    """Everything observable about a model."""
    s = {"basis": [b.copy() for b in model.cart_basis_vectors],
         "interpolations": [(i.t.copy(), np.array(i.c), i.k) for i in model.interpolations],
         "mask": model.mask.copy(), "repr": repr(model), "ref": model.ref_polarizability,
         "dummy": model.is_dummy_model,
         "structure": (model.ref_structure.lattice, model.ref_structure.positions,
                       np.array(model.ref_structure.atomic_numbers))}
    try:
        s["prediction"] = model.calc_polarizabilities(X)
    except Exception as exc:  # pylint: disable=broad-except
        s["prediction"] = type(exc).__name__
    if kind == "art":
        s["specification"] = [(a, list(e), [d.copy() for d in ds]) for a, e, ds in model.get_specification_tuples()]
        s["indexes"] = [model.get_dof_indexes(a) for a in range(model.ref_structure.num_atoms)]
    return s


def same_state(a, b, path="", tol=0.0):
    """First difference of two snapshots or None."""
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{path}: {sorted(a)} and {sorted(b)}"
        for k in a:
            d = same_state(a[k], b[k], f"{path}.{k}" if path else k, tol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{path}: shapes {a.shape} and {b.shape}"
        if a.dtype.kind in "fc":
            close = np.allclose(a, b, atol=tol, rtol=tol, equal_nan=True)
        else:
            close = bool((a == b).all())
        return None if close else f"{path}: {diff(a, b) if a.dtype.kind == 'f' else 'values differ'}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same_state(x, y, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:80]!r} and {str(b)[:80]!r}"


class strict_warnings:
    """Warnings become exceptions, as under python -W error."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            self.catch = warnings.catch_warnings()
            self.catch.__enter__()
            warnings.simplefilter("error")

    def __exit__(self, *args):
        if self.on:
            self.catch.__exit__(*args)
