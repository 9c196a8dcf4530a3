"""C12: results, masked copies and inputs are isolated."""

import copy

import torch
from scipy.interpolate import BSpline

from .models import *  # noqa: F403
from .models import REAL_MODEL, STUB_IO

from ramannoodle.dataset.torch import PolarizabilityDataset
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import calc_signal_spectrum, convolve_spectrum
import ramannoodle.structure as rs
import ramannoodle.structure.utils as su

ID = "C12"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("each evaluation is a seeded history over a pool of structures, models, masked models, phonons, trajectories, spectra, "
        "datasets and files: reading properties, editing everything that was ever returned, masking, adding degrees of "
        "freedom, scaling, predicting, measuring, writing, failing calls; after each step every object must look as it did, "
        "except for the one deliberately changed; non-trivial: something returned was edited; distinct: different event log")
REAL = REAL_MODEL + ["ramannoodle.dynamics, ramannoodle.spectrum, ramannoodle.dataset.torch, torch"]
STUBS = STUB_IO

OPS = ["get", "get", "get", "edit", "edit", "edit", "masked", "setmask", "unmask", "add", "use", "use", "use", "make", "make",
       "read", "read", "rewrite", "scale", "fail", "sweep", "sweep", "sweep"]


def gen(rng, tier):
    n = rng.randint(6, 24 if tier == "quick" else 40)
    return {"crystal": gen_model_crystal(rng, small=True), "seed": rng.randrange(1 << 30),
            "kind": rng.choice(["art", "interp"]), "count": rng.choice([1, 3, 5, 6]),
            "ops": [{"op": rng.choice(OPS), "seed": rng.randrange(1 << 30)} for _ in range(n)]}


def shrink(sc):
    c = sc["crystal"]
    if "n" in c and c["n"] > 1:
        yield {**sc, "crystal": {**c, "n": c["n"] - 1}}


# ---- generic helpers -----------------------------------------------------------------------
def frozen(v):
    """A comparable deep copy of any value the library takes or returns."""
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else [frozen(x) for x in v.tolist()]
    if isinstance(v, torch.Tensor):
        return v.detach().clone().numpy()
    if isinstance(v, BSpline):
        return [v.t.copy(), np.array(v.c).copy(), v.k]
    if isinstance(v, dict):
        return {str(k): frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    if isinstance(v, ReferenceStructure):
        return [list(v.atomic_numbers), v.lattice, v.positions]
    if isinstance(v, Phonons):
        return [v.ref_positions, v.wavenumbers, v.displacements]
    if isinstance(v, Trajectory):
        return [v.positions_ts, v.timestep]
    if isinstance(v, PhononRamanSpectrum):
        return [v.phonon_wavenumbers, v.raman_tensors]
    if isinstance(v, MDRamanSpectrum):
        return [v.polarizability_ts, v.timestep]
    if isinstance(v, PolarizabilityDataset):
        return state("dataset", v, None)
    if type(v).__module__.startswith("pymatgen"):
        return v.as_dict() if hasattr(v, "as_dict") else repr(v)
    if hasattr(v, "cart_basis_vectors"):
        return [frozen(v.cart_basis_vectors), v.mask, v.ref_polarizability]
    if isinstance(v, np.generic):
        return v.item()
    return v if isinstance(v, (int, float, str, bool, bytes, type(None))) else repr(v)


def scribble(v, r, depth=0):
    """Edit a returned value in place; True if something was changed."""
    if isinstance(v, torch.Tensor):
        return False
    if isinstance(v, np.ndarray):
        if not v.flags.writeable or not v.size:
            return False
        if v.dtype == bool:
            v[...] = ~v
        else:
            v[...] = v[::-1] * 3 + 7 if r.uniform() < 0.5 else 99
        return True
    if isinstance(v, BSpline):
        np.array(v.c, copy=False)[...] += 5
        v.t[...] *= 2
        return True
    if isinstance(v, dict):
        done = any([scribble(x, r, depth + 1) for x in v.values()])
        if r.uniform() < 0.5:
            v.clear()
            done = True
        return done
    if isinstance(v, tuple):
        return any([scribble(x, r, depth + 1) for x in v])
    if isinstance(v, list):
        done = any([scribble(x, r, depth + 1) for x in v])
        if v:
            pick = r.integers(4)
            if pick == 0:
                v.append(v[0])
            elif pick == 1:
                v.reverse()
                v.pop()
            elif pick == 2 and all(isinstance(x, int) for x in v):
                v[:] = [x + 1 for x in v]
            elif pick == 3:
                v.clear()
            done = True
        return done
    return False


def getters(kind, obj, world):
    """(name, function) of everything an object hands out."""
    c = world.c if world else None
    G = []

    def attrs(*names):
        for n in names:
            G.append((n, lambda n=n: getattr(obj, n)))

    if kind == "structure":
        attrs("atomic_numbers", "lattice", "positions", "num_atoms", "num_nonequivalent_atoms")
        d = np.zeros((c.n, 3))
        d[0, 1] = 0.01
        G += [("get_equivalent_atom_dict()", obj.get_equivalent_atom_dict),
              ("get_equivalent_displacements()", lambda: obj.get_equivalent_displacements(d)),
              ("get_atom_indexes()", lambda: obj.get_atom_indexes(c.symbols()[0])),
              ("get_atom_indexes([])", lambda: obj.get_atom_indexes([c.symbols()[-1]])),
              ("get_cart_displacement()", lambda: obj.get_cart_displacement(d)),
              ("get_frac_displacement()", lambda: obj.get_frac_displacement(d)),
              ("get_cart_direction()", lambda: obj.get_cart_direction(d[0])),
              ("get_frac_direction()", lambda: obj.get_frac_direction(d[0])),
              ("get_displaced_positions()", lambda: rs.get_displaced_positions(obj, d, np.array([0.1, -0.1]))),
              ("get_ast_displaced_positions()",
               lambda: rs.get_ast_displaced_positions(obj, 0, d[0], np.array([0.1, -0.1])))]
    elif kind in ("art", "interp"):
        attrs("cart_basis_vectors", "interpolations", "mask", "ref_polarizability", "is_dummy_model")
        X, _ = world.batch(3, 2)
        G += [("ref_structure.lattice", lambda: obj.ref_structure.lattice),
              ("ref_structure.positions", lambda: obj.ref_structure.positions),
              ("ref_structure.atomic_numbers", lambda: obj.ref_structure.atomic_numbers),
              ("calc_polarizabilities()", lambda: obj.calc_polarizabilities(X)),
              ("calc_polarizabilities(reference)", lambda: obj.calc_polarizabilities(c.X[None] % 1)),
              ("repr", lambda: repr(obj))]
        if kind == "art":
            G += [("get_specification_tuples()", obj.get_specification_tuples),
                  ("get_dof_indexes(0)", lambda: obj.get_dof_indexes(0)),
                  ("get_dof_indexes(symbol)", lambda: obj.get_dof_indexes(c.symbols()[-1]))]
    elif kind == "phonons":
        attrs("ref_positions", "wavenumbers", "displacements")
    elif kind == "trajectory":
        attrs("positions_ts", "timestep")
        G += [("len", lambda: len(obj)), ("[0]", lambda: obj[0].copy()), ("[1:]", lambda: obj[1:].copy())]
    elif kind in ("phonon-spectrum", "md-spectrum"):
        attrs(*(("phonon_wavenumbers", "raman_tensors") if kind == "phonon-spectrum" else ("polarizability_ts", "timestep")))
        G += [("measure()", obj.measure),
              ("measure(laser)", lambda: obj.measure(laser_correction=True)),
              ("measure(BE)", lambda: obj.measure(bose_einstein_correction=True)),
              ("measure(both)", lambda: obj.measure("polycrystalline", True, 600, True, 200))]
    elif kind == "dataset":
        attrs("num_atoms", "num_samples", "atomic_numbers", "positions", "polarizabilities", "scaled_polarizabilities",
              "mean_polarizability", "stddev_polarizability")
        G += [("[0]", lambda: [t.clone() for t in obj[0]]), ("len", lambda: len(obj))]
    return G


def state(kind, obj, world):
    out = {}
    for name, fn in getters(kind, obj, world):
        try:
            out[name] = frozen(fn())
        except Exception as exc:  # pylint: disable=broad-except
            out[name] = "raises " + type(exc).__name__
    return out


class History:
    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.world = World(sc["crystal"], sc["seed"])
        self.objects = []       # [kind, object, state, label]
        self.owned = []         # (label, returned value)
        self.files = {}         # name -> (fmt, facts)
        self.count = 0

    def kept(self, label, fn, *args, **kw):
        """A library call that must leave its arguments alone."""
        before = [frozen(a) for a in args] + [frozen(a) for a in kw.values()]
        out = self.ctx.call(label, fn, *args, **kw)
        for i, (a, b) in enumerate(zip(list(args) + list(kw.values()), before)):
            d = same_state(b, frozen(a))
            self.ctx.require(d is None, "input-modified", f"{label} changed its argument {i}: {d}")
        return out

    def new(self, kind, obj, label):
        if len(self.objects) > 9:
            self.objects.pop(2 + int(rng_of("drop", self.count).integers(len(self.objects) - 2)))
        self.objects.append([kind, obj, state(kind, obj, self.world), f"{kind} #{len(self.objects)} ({label})"])

    def pick(self, r, *kinds):
        options = [o for o in self.objects if not kinds or o[0] in kinds]
        return options[int(r.integers(len(options)))] if options else None

    def check(self, what):
        for kind, obj, was, label in self.objects:
            d = same_state(was, state(kind, obj, self.world), tol=1e-13)
            self.ctx.require(d is None, "not-isolated", f"{what} changed the {label}: {d}")

    def own(self, label, value):
        self.owned.append((label, value))
        if len(self.owned) > 25:
            self.owned.pop(0)

    # ---- operations
    def get(self, r):
        kind, obj, was, label = self.pick(r)
        G = getters(kind, obj, self.world)
        name, fn = G[int(r.integers(len(G)))]
        out = self.ctx.call(f"{kind}.{name}", fn)
        if out.ok:
            d = same_state(was[name], frozen(out.value), tol=1e-13)
            self.ctx.require(d is None, "not-isolated", f"{name} of the {label} changed: {d}")
            self.own(f"{name} of the {label}", out.value)
            if r.uniform() < 0.3 and scribble(out.value, r):
                self.ctx.nontrivial = True
                self.ctx.probe("edits")
                return f"editing {name} of the {label}"
        return f"reading {name} of the {label}"

    def sweep(self, r):
        """Everything one object (mostly a recent one) hands out is edited."""
        kind, obj, was, label = self.objects[-1 - min(int(r.integers(3)), len(self.objects) - 1)] if r.uniform() < 0.7 else self.pick(r)
        for name, fn in getters(kind, obj, self.world):
            out = self.ctx.call(f"{kind}.{name}", fn)
            if not out.ok:
                continue
            d = same_state(was[name], frozen(out.value), tol=1e-13)
            self.ctx.require(d is None, "not-isolated", f"{name} of the {label} changed while its other values were edited: {d}")
            if scribble(out.value, r):
                self.ctx.nontrivial = True
                self.ctx.probe("edits")
        return f"editing everything from the {label}"

    def edit(self, r):
        if not self.owned:
            return self.get(r)
        label, value = self.owned[int(r.integers(len(self.owned)))]
        if scribble(value, r):
            self.ctx.nontrivial = True
            self.ctx.probe("edits")
        self.ctx.event("edit", label)
        return f"editing {label}"

    def masked(self, r):
        o = self.pick(r, "art", "interp")
        J = len(o[1].mask)
        idx = [int(j) for j in np.flatnonzero(r.uniform(size=J) < 0.5)]
        idx = [idx[i] for i in r.permutation(len(idx))]
        if r.uniform() < 0.3:
            idx = np.array(idx, dtype=int)
        out = self.kept("get_masked_model", o[1].get_masked_model, idx)
        self.ctx.require(out.ok, "masking", f"get_masked_model({idx}) {out.describe()}")
        want = np.zeros(J, dtype=bool)
        want[idx] = True
        self.expect(o, out.value, {"mask": want}, "get_masked_model")
        self.new(o[0], out.value, "masked copy of " + o[3])
        return "making a masked model"

    def expect(self, o, obj, fields, what):
        """`obj` must be as o's model with other `fields`."""
        got = {n: frozen(fn()) for n, fn in getters(o[0], obj, self.world) if n in
               ("mask", "cart_basis_vectors", "interpolations", "ref_polarizability")}
        want = {n: fields.get(n, o[2][n]) for n in got}
        d = same_state(want, got, tol=1e-13)
        self.ctx.require(d is None, "masking", f"{what}: {d}")

    def setmask(self, r):
        o = self.pick(r, "art", "interp")
        m = r.uniform(size=len(o[1].mask)) < 0.5
        mine = m.copy()

        def assign(model, value):
            model.mask = value

        out = self.kept("mask=", lambda v: assign(o[1], v), mine)
        self.ctx.require(out.ok, "masking", f"assigning a mask {out.describe()}")
        self.own(f"the mask array assigned to the {o[3]}", mine)
        other = self.pick(r, "art", "interp")
        if other is not o and len(other[1].mask) == len(m) and r.uniform() < 0.5:
            assign(other[1], mine)
            self.expect(other, other[1], {"mask": m}, "assigning a mask")
            other[2] = state(other[0], other[1], self.world)
        self.expect(o, o[1], {"mask": m}, "assigning a mask")
        o[2] = state(o[0], o[1], self.world)
        return f"assigning a mask to the {o[3]}"

    def unmask(self, r):
        o = self.pick(r, "art", "interp")
        out = self.ctx.call("unmask", o[1].unmask)
        self.ctx.require(out.ok, "masking", f"unmask {out.describe()}")
        self.expect(o, o[1], {"mask": np.zeros(len(o[1].mask), dtype=bool)}, "unmask")
        o[2] = state(o[0], o[1], self.world)
        return f"unmasking the {o[3]}"

    def add(self, r):
        o = self.pick(r, "art", "interp")
        J = len(o[1].mask)
        a = int(r.integers(self.world.c.n))
        d = frame(self.world, a, self.sc["seed"], False)[int(r.integers(3))]
        unit = np.zeros((self.world.c.n, 3))
        unit[a] = d
        mask = o[1].mask
        for amps in ([0.06, -0.06], [0.06]):
            pols = self.world.alpha(np.array([x * unit for x in amps]))
            amps = np.array(amps)
            entry = ["array", "array", "pymatgen", "outcar"][int(r.integers(4))]
            if entry == "array":
                if o[0] == "art":
                    out = self.kept("add_art", o[1].add_art, a, d.copy() * 3, amps, pols)
                else:
                    out = self.kept("add_dof", o[1].add_dof, unit * 3, amps, pols, 1)
            elif entry == "pymatgen":
                S = pymatgen_structures(self.world.c, [x * unit for x in amps])
                if o[0] == "art":
                    out = self.kept("add_art_from_pymatgen", o[1].add_art_from_pymatgen, S, pols)
                else:
                    out = self.kept("add_dof_from_pymatgen", o[1].add_dof_from_pymatgen, S, pols, 1)
            else:
                F = calc_files(self.ctx, self.world, f"add{self.count}", [x * unit for x in amps], pols, entry)
                if o[0] == "art":
                    out = self.kept("add_art_from_files", o[1].add_art_from_files, F, entry)
                else:
                    out = self.kept("add_dof_from_files", o[1].add_dof_from_files, F, entry, 1)
            if out.ok:
                self.own("amplitudes given to add", amps)
                self.own("polarizabilities given to add", pols)
                break
        now = o[1].mask
        self.ctx.require(len(now) >= J and (now[:J] == mask).all() and not now[J:].any(), "masking",
                         f"adding a degree of freedom changed the mask from {mask} to {now}")
        was = o[2]
        o[2] = state(o[0], o[1], self.world)
        for n in ("cart_basis_vectors", "interpolations"):
            d = same_state(was[n], o[2][n][:len(was[n])])
            self.ctx.require(d is None, "not-isolated", f"adding a degree of freedom changed earlier ones: {d}")
        return f"adding to the {o[3]}"

    def scale(self, r):
        o = self.pick(r, "dataset")
        if o is None:
            return self.make(r)
        mean, std = r.normal(size=(3, 3)), r.uniform(0.5, 2, size=(3, 3))
        mean, std = (mean + mean.T) / 2, (std + std.T) / 2
        out = self.kept("scale_polarizabilities", o[1].scale_polarizabilities, mean, std)
        self.ctx.require(out.ok, "scaling", f"scale_polarizabilities {out.describe()}")
        p = (o[2]["polarizabilities"] - mean) / std
        want = np.stack([p[:, 0, 0], p[:, 1, 1], p[:, 2, 2], p[:, 0, 1], p[:, 0, 2], p[:, 1, 2]], axis=1)
        self.ctx.require(same(o[1].scaled_polarizabilities, want, 1e-4, 1e-4), "scaling",
                         f"scaled polarizabilities: {diff(o[1].scaled_polarizabilities, want)}")
        self.own("mean given to scale_polarizabilities", mean)
        self.own("stddev given to scale_polarizabilities", std)
        now = state("dataset", o[1], self.world)
        for n in now:
            if n not in ("scaled_polarizabilities", "[0]"):
                d = same_state(o[2][n], now[n], tol=1e-13)
                self.ctx.require(d is None, "not-isolated", f"scaling changed {n}: {d}")
        o[2] = now
        return f"scaling the {o[3]}"

    def use(self, r):
        """Calls that take arrays and objects and hand out results."""
        c, ctx = self.world.c, self.ctx
        pick = int(r.integers(15))
        X, u = self.world.batch(int(r.integers(1000)), 3)
        if pick == 0:
            o = self.pick(r, "art", "interp")
            out = self.kept("calc_polarizabilities", o[1].calc_polarizabilities, X)
        elif pick == 1:
            out = self.kept("apply_pbc", su.apply_pbc, X)
        elif pick == 2:
            out = self.kept("displace_positions", su.displace_positions, X, u)
        elif pick == 3:
            out = self.kept("calc_displacement", su.calc_displacement, X[0], X)
        elif pick == 4:
            out = self.kept("transform_positions", su.transform_positions, X[0], np.eye(3)[[1, 0, 2]], np.array([.5, 0, 0]))
        elif pick == 5:
            o = self.pick(r, "structure")
            out = self.kept("get_equivalent_displacements", o[1].get_equivalent_displacements, u[0])
        elif pick == 6:
            o = self.pick(r, "structure")
            out = self.kept("write_displaced_structures", rs.write_displaced_structures, o[1], u[0],
                            np.array([0.1, -0.1]), [ctx.path(f"w{self.count}a"), ctx.path(f"w{self.count}b")], "poscar")
        elif pick == 7:
            out = self.kept("write_trajectory", generic.write_trajectory, c.L.copy(), list(c.Z), X % 1,
                            ctx.path(f"w{self.count}x"), "xdatcar")
        elif pick == 8:
            w, i = np.sort(r.uniform(100, 900, size=6)), r.uniform(size=6)
            out = self.kept("convolve_spectrum", convolve_spectrum, w, i, ["gaussian", "lorentzian"][int(r.integers(2))], 7.0,
                            None if r.uniform() < 0.5 else np.linspace(0, 1000, 20))
        elif pick == 9:
            out = self.kept("calc_signal_spectrum", calc_signal_spectrum, r.normal(size=9), 1.0)
        elif pick == 10:
            o, m = self.pick(r, "phonons", "trajectory"), self.pick(r, "art", "interp")
            if o is None:
                return self.make(r)
            out = self.kept("get_raman_spectrum", o[1].get_raman_spectrum, m[1])
            if out.ok:
                self.new("phonon-spectrum" if o[0] == "phonons" else "md-spectrum", out.value, "from " + o[3])
            return f"computing a spectrum of the {o[3]}"
        elif pick == 11:
            o = self.pick(r, "structure")
            out = self.kept("write_structure", generic.write_structure, o[1].lattice, o[1].atomic_numbers, X[0] % 1,
                            ctx.path(f"w{self.count}p"), "poscar")
        elif pick == 12:
            o = self.pick(r, "structure", "art")
            symbols = c.symbols()
            ask = [symbols[int(i)] for i in r.permutation(c.n)]
            if o[0] == "art":
                ask = [x if r.uniform() < 0.5 else int(r.integers(c.n)) for x in ask]
                out = self.kept("get_dof_indexes", o[1].get_dof_indexes, ask)
            else:
                out = self.kept("get_atom_indexes", o[1].get_atom_indexes, ask)
        elif pick == 13:
            o = self.pick(r, "structure")
            names = [ctx.path(f"w{self.count}{x}") for x in "cde"]
            if r.uniform() < 0.5:
                names = [Path(n) for n in names]
            out = self.kept("write_ast_displaced_structures", rs.write_ast_displaced_structures, o[1], int(r.integers(c.n)),
                            u[0][0], np.array([0.1, -0.2, 0.3]), names, "poscar")
        else:
            out = self.kept("apply_pbc_displacement", su.apply_pbc_displacement, u)
        if out.ok and out.value is not None and pick not in (8,):
            self.own(f"result of use {pick}", out.value)
        return f"use {pick}"

    def make(self, r):
        """New objects from arrays."""
        c = self.world.c
        pick = int(r.integers(6))
        kw = {}
        if pick == 0:
            kind, fn, args = "structure", ReferenceStructure, (list(c.Z), c.L.copy(), c.X.copy() % 1)
        elif pick == 1:
            kind = self.sc["kind"]
            s = self.pick(r, "structure")[1]
            fn, args = (ARTModel if kind == "art" else InterpolationModel), (s, self.world.a0.copy())
        elif pick == 2:
            M = int(r.integers(1, 4))
            kind, fn = "phonons", Phonons
            home = c.X + r.integers(-1, 2, size=c.X.shape) * (r.uniform() < 0.5)
            args = (home, r.uniform(50, 900, size=M), r.normal(size=(M, c.n, 3)) * 0.1)
        elif pick == 3:
            X, _ = self.world.batch(int(r.integers(1000)), 6)
            kind, fn, args = "trajectory", Trajectory, (X, 0.5)
        elif pick == 4:
            kind, fn = "md-spectrum", MDRamanSpectrum
            args = (r.normal(size=(9, 3, 3)), 1.0)
            if r.uniform() < 0.5:
                kind, fn, args = "phonon-spectrum", PhononRamanSpectrum, (r.uniform(50, 900, size=4), r.normal(size=(4, 3, 3)))
        else:
            X, u = self.world.batch(int(r.integers(1000)), 4)
            kind, fn, args = "dataset", PolarizabilityDataset, (c.L.copy(), list(c.Z), X, self.world.alpha(u))
        out = self.kept(f"new {kind}", fn, *args, **kw)
        self.ctx.require(out.ok, "creation", f"creating a {kind} {out.describe()}")
        self.new(kind, out.value, f"made at step {self.count}")
        return f"making a {kind}"

    def rewrite(self, r):
        """The user puts another file in place of one read before."""
        name = f"file{int(r.integers(3))}"
        fmt = ["outcar", "vasprun.xml", "poscar", "xdatcar"][int(r.integers(4))]
        X, u = self.world.batch(int(r.integers(1000)), 2)
        seed = int(r.integers(1 << 20))
        c = self.world.c
        if fmt in ("outcar", "vasprun.xml"):
            md = vasp.trajectory(c, 3, seed) if r.uniform() < 0.4 else None
            ph = vasp.modes(c, seed, 0) if md is None and r.uniform() < 0.4 else None
            text, facts = (vasp.outcar if fmt == "outcar" else vasp.vasprun)(c, X=X[0] % 1, pol=self.world.alpha(u[0]), md=md,
                                                                           phonons=ph, seed=seed)
        elif fmt == "poscar":
            text, facts = vasp.poscar(c, X=X[0] % 1, seed=seed)
        else:
            text, facts = vasp.xdatcar(c, list(X % 1))
        self.ctx.put(name, text)
        self.files[name] = (fmt, facts)
        return f"another {fmt} at {name}"

    def read(self, r):
        if not self.files:
            self.rewrite(r)
        name = sorted(self.files)[int(r.integers(len(self.files)))]
        fmt, facts = self.files[name]
        from .calcs import readers
        options = [x for x in readers(fmt, facts) if x[3]]
        label, fn, cmp, _ = options[int(r.integers(len(options)))]
        out = self.kept(label, fn, self.ctx.path(name))
        self.ctx.require(out.ok, "reading", f"{label} of {name} {out.describe()}")
        bad = cmp(out.value)
        self.ctx.require(bad is None, "reading", f"{label} of {name}, after editing earlier results: {bad}")
        v = out.value
        for kind, cls in (("structure", ReferenceStructure), ("phonons", Phonons), ("trajectory", Trajectory),
                          ("dataset", PolarizabilityDataset)):
            if isinstance(v, cls):
                self.new(kind, v, f"read from {name}")
                return f"reading {name}"
        self.own(f"{label} of {name}", v)
        return f"reading {name}"

    def fail(self, r):
        """Requests that are refused."""
        pick = int(r.integers(5))
        X, u = self.world.batch(1, 2)
        o = self.pick(r, "art", "interp")
        if pick == 0:
            self.kept("bad prediction", o[1].calc_polarizabilities, X[:, :, :2])
        elif pick == 1:
            def assign(v):
                o[1].mask = v
            self.kept("bad mask", assign, np.zeros(len(o[1].mask) + 1, dtype=bool))
        elif pick == 2:
            self.kept("bad masked model", o[1].get_masked_model, [10 ** 6])
        elif pick == 3:
            self.kept("bad trajectory", Trajectory, X, -1.0)
        else:
            s = self.pick(r, "structure")
            self.kept("bad displacement", s[1].get_equivalent_displacements, u[0][:, :2])
        return f"failing request {pick}"


def run(ctx, sc):
    h = History(ctx, sc)
    world = h.world
    c = world.c
    h.new("structure", ref(c), "first")
    model = new_model(ctx, world, sc["kind"])
    added = 0
    for a in range(c.n):
        for d in frame(world, a, sc["seed"], False):
            if added >= sc["count"]:
                break
            unit = np.zeros((c.n, 3))
            unit[a] = d
            for amps in ([0.05, -0.05], [0.05]):
                if add(ctx, world, model, sc["kind"], "array", unit, amps,
                       world.alpha(np.array([x * unit for x in amps])), "first").ok:
                    added += 1
                    break
    h.new(sc["kind"], model, "first")
    for k, op in enumerate(sc["ops"]):
        h.count = k
        what = getattr(h, op["op"])(rng_of("op", op["seed"]))
        h.check(f"step {k} ({what})")
