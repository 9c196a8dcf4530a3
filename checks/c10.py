"""C10: adding degrees of freedom is all-or-nothing."""

import copy

from .models import *  # noqa: F403
from .models import REAL_MODEL, STUB_IO

ID = "C10"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("each evaluation builds a model by a seeded history of good and bad additions (arrays, files, pymatgen) under seeded "
        "storage faults, failing numeric routines (k-th call) and warnings turned into errors; after each failure the "
        "model is compared with its state before, and throughout with a twin that only saw the additions that succeeded; "
        "non-trivial: an addition failed; distinct: different event log")
REAL = REAL_MODEL
STUBS = STUB_IO + ["make_interp_spline, inv, norm, append, get_symmetry raise MemoryError/LinAlgError at a chosen call, else real"]

BAD = {
    "array": ["displacement", "zero", "nan-direction", "amplitudes", "pols", "order", "duplicate", "overlap", "nan-amplitude",
              "nan-pol", "inf-pol", "atom", "insufficient", "one-sided", "half-duplicate", "disabled"],
    "files": ["missing", "truncated", "format", "no-pol", "atoms", "several", "crooked", "none", "overlap", "duplicate",
              "order", "one-sided", "directory", "later-missing", "disabled"],
    "pymatgen": ["atoms", "crooked", "none", "type", "pols", "several", "overlap", "duplicate", "order", "species"],
}


def gen(rng, tier):
    sc = {"crystal": gen_model_crystal(rng, small=rng.random() < 0.6), "seed": rng.randrange(1 << 30),
          "kind": rng.choice(["art", "interp"]), "dummy": rng.random() < 0.15, "ops": []}
    for _ in range(rng.randint(2, 9 if tier == "quick" else 14)):
        roll = rng.random()
        if roll < 0.12:
            sc["ops"].append({"op": rng.choice(["mask", "unmask", "predict", "masked"]), "seed": rng.randrange(1 << 30)})
            continue
        op = {"op": "good" if roll < 0.6 else "bad", "seed": rng.randrange(1 << 30),
              "entry": rng.choice(["array", "array", "outcar", "vasprun.xml", "pymatgen", "poscar", "xdatcar"])}
        if rng.random() < 0.5:
            op["folder"] = rng.randint(0, 1)
        if op["op"] == "bad":
            group = op["entry"] if op["entry"] in ("array", "pymatgen") else "files"
            op["how"] = rng.choice(BAD[group])
        if rng.random() < 0.4:
            op["numfail"] = {"fn": rng.choice(["make_interp_spline", "make_interp_spline", "inv", "norm", "get_symmetry",
                                               "append", "any", "any"]),
                             "at": rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60)]),
                             "exc": rng.choice(["MemoryError", "LinAlgError"])}
        if group_of(op["entry"]) == "files" and rng.random() < 0.4:
            op["faults"] = [{"op": rng.choice(["read", "read", "open", "close"]), "at": rng.randint(0, 5),
                             "err": rng.choice(READ_ERRNO)} for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.2:
            op["strict"] = True
        if rng.random() < 0.3:
            op["delivery"] = delivery(rng)
        sc["ops"].append(op)
    return sc


def group_of(entry):
    return entry if entry in ("array", "pymatgen") else "files"


def shrink(sc):
    c = sc["crystal"]
    if "n" in c and c["n"] > 1:
        yield {**sc, "crystal": {**c, "n": c["n"] - 1}}
    for k, op in enumerate(sc["ops"]):
        for key in ("numfail", "strict", "delivery"):
            if op.get(key):
                ops = list(sc["ops"])
                ops[k] = {a: b for a, b in op.items() if a != key}
                yield {**sc, "ops": ops}


class Request:
    """One addition, ready to be made on any model (files are written once)."""

    def __init__(self, ctx, world, sc, k, op, basis):
        self.ctx, self.world, self.kind, self.op, self.k = ctx, world, sc["kind"], op, k
        self.dummy = sc["dummy"]
        r = rng_of("request", op["seed"])
        c = world.c
        n = c.n
        how = op.get("how")
        entry = op["entry"]
        if entry in ("poscar", "xdatcar") and not self.dummy and how is None:
            entry = "outcar"
        # direction: an unused one, mostly
        unit = np.zeros((n, 3))
        atom = int(r.integers(n))
        options = list(frame(world, atom, sc["seed"], False))
        options = [d for d in options if all(abs(d @ b[atom]) < 1e-6 for b in basis)] or options
        unit[atom] = options[int(r.integers(len(options)))]
        if self.kind == "interp" and r.uniform() < 0.3 and n > 1:       # a collective motion
            unit = r.normal(size=(n, 3))
            flat = unit.reshape(-1)
            if basis:
                B = np.array([b.reshape(-1) for b in basis])
                flat = flat - B.T @ np.linalg.lstsq(B.T, flat, rcond=None)[0]
            if np.linalg.norm(flat) > 1e-6:
                unit = (flat / np.linalg.norm(flat)).reshape(n, 3)
        if how == "overlap" and basis:
            b = basis[int(r.integers(len(basis)))]
            unit = b + 0.3 * unit * r.integers(0, 2)
            if self.kind == "art":
                a = int(np.argmax((b ** 2).sum(1)))
                only = np.zeros((n, 3))
                only[a] = unit[a]
                unit = only
            unit = unit / np.linalg.norm(unit)
        self.unit, self.atom = unit, int(np.argmax((unit ** 2).sum(1)))
        size = float(r.uniform(0.03, 0.1))
        amps = [[size, -size], [size], [-size]][int(r.integers(3))]
        order = 1
        if self.kind == "interp" and r.uniform() < 0.3:
            amps, order = [0.05, -0.05, 0.1], int(r.integers(1, 4))
        if how == "duplicate":
            amps = amps + amps[:1]
        if how == "half-duplicate":
            amps = [0.05, 0.02, 0.05 * (1 + 1e-9)] if self.kind == "interp" else [0.05, 0.05 * (1 + 1e-9)]
        if how == "one-sided":
            amps = [0.05, 0.1]
        if how == "insufficient":
            order = 7
        if how == "order":
            order = [0, -1, "1", 1.5, None, 9, np.int64(1), True][int(r.integers(8))]
        us = [a * unit for a in amps]
        pols = np.array([world.alpha(u) for u in us])
        self.entry, self.how, self.order, self.include = entry, how, order, bool(r.integers(2))
        self.direction = unit.copy() if self.kind == "interp" else unit[self.atom].copy()
        self.amps, self.pols, self.at = np.array(amps), pols, self.atom
        pick = int(r.integers(100))
        if group_of(entry) == "array":
            self._spoil_arrays(pick, n)
        elif entry == "pymatgen":
            self._spoil_pymatgen(pick, us)
        else:
            self._files(pick, us, r)

    def _spoil_arrays(self, pick, n):
        how = self.how
        if how == "displacement":
            self.direction = [self.direction[..., :2], np.zeros((n + 1, 3)), self.direction.tolist(), None,
                              self.direction.reshape(-1)][pick % 5]
        elif how == "zero":
            self.direction = self.direction * 0
        elif how == "nan-direction":
            self.direction = self.direction * np.nan
        elif how == "amplitudes":
            self.amps = [self.amps.tolist(), self.amps[:, None], self.amps[:0], None, "0.1", 0.1][pick % 6]
        elif how == "pols":
            self.pols = [self.pols[:-1], self.pols[0], self.pols.tolist(), np.concatenate([self.pols] * 2),
                         self.pols[:, :2], None][pick % 6]
        elif how == "nan-amplitude":
            self.amps = self.amps * 1.0
            self.amps[-1] = [np.nan, np.inf][pick % 2]
        elif how in ("nan-pol", "inf-pol"):
            self.pols = self.pols.copy()
            self.pols[-1, 0, 1] = np.nan if how == "nan-pol" else np.inf
        elif how == "atom":
            self.at = [-1, n, n + 7, "0", 1.0, None, np.int64(0)][pick % 7]

    def _spoil_pymatgen(self, pick, us):
        import pymatgen.core
        c = self.world.c
        self.structures = pymatgen_structures(c, us)
        how = self.how
        if how == "atoms":
            self.structures[-1] = pymatgen.core.Structure(c.L, c.symbols() + ["H"],
                                                          np.vstack([c.X, [[0.3, 0.1, 0.7]]]))
        elif how == "species":
            self.structures[-1] = pymatgen.core.Structure(c.L, ["Og"] * c.n, c.displaced(us[-1]))
        elif how == "crooked":
            v = us[-1].copy()
            v[self.atom] = np.roll(v[self.atom], 1) + 0.01
            self.structures.append(pymatgen_structures(c, [v])[0])
            self.pols = np.concatenate([self.pols, self.pols[:1]])
        elif how == "several" and c.n > 1:
            self.structures = pymatgen_structures(c, [u + np.roll(u, 1, axis=0) for u in us])
        elif how == "none":
            self.structures = []
        elif how == "type":
            self.structures = [self.structures[0], tuple(self.structures), "structures", None][pick % 4]
            if pick % 8 > 3:
                self.structures = [None, 3, "x"]
        elif how == "pols":
            self.pols = [self.pols[:-1], self.pols[0], None, np.concatenate([self.pols] * 2)][pick % 4]

    def _files(self, pick, us, r):
        ctx, c, how = self.ctx, self.world.c, self.how
        fmt = self.entry
        # other calculations may be run in a folder used before
        tag = f"op{self.k}" if self.op.get("folder") is None else f"calc{self.op['folder']}"
        if how == "crooked":
            v = us[-1].copy()
            v[self.atom] = np.roll(v[self.atom], 1) + 0.01
            us = us + [v]
        if how == "several" and c.n > 1:
            us = [u + np.roll(u, 1, axis=0) for u in us]
        pols = [self.world.alpha(u) for u in us]
        if how == "no-pol":
            pols[-1] = None
        world = self.world
        if how == "atoms":
            world = copy.copy(world)
            world.c = other = copy.copy(c)
            other.X = np.vstack([c.X, [[0.31, 0.17, 0.73]]])
            other.Z = list(c.Z) + [1]
            us = [np.vstack([u, np.zeros(3)]) for u in us]
            try:
                self.paths = calc_files(ctx, world, tag, us, pols, fmt)
            except Exception:  # pylint: disable=broad-except
                self.paths = [ctx.put(f"{tag}/other", b"nothing")]
        else:
            self.paths = calc_files(ctx, world, tag, us, pols, fmt)
        if how == "missing":
            self.paths = [ctx.path("missing")] + self.paths
        elif how == "later-missing":
            self.paths = self.paths + [ctx.path("missing")]
        elif how == "directory":
            self.paths = self.paths[:-1] + [ctx.path(tag)]
        elif how == "truncated":
            name = f"{tag}/{len(us) - 1}.{fmt}"
            data = ctx.get(name)
            ctx.put(name, data[:int(len(data) * r.uniform())])
        elif how == "format":
            self.entry = fmt = ["outcar", "vasprun.xml", "poscar", "xdatcar", "nonsense", None, 5][pick % 7]
        elif how == "none":
            self.paths = [[], None, 5, [None]][pick % 4]
        self.fmt = fmt

    def make(self, model, what):
        ctx = self.ctx
        if self.how == "disabled" and self.kind == "art":
            if self.entry == "array":
                return ctx.call(what, model.add_dof, self.unit, self.amps, self.pols, 1)
            return ctx.call(what, model.add_dof_from_files, self.paths, self.fmt, 1)
        if group_of(self.op["entry"]) == "array":
            if self.kind == "art":
                return ctx.call(what, model.add_art, self.at, self.direction, self.amps, self.pols)
            return ctx.call(what, model.add_dof, self.direction, self.amps, self.pols, self.order, self.include)
        if self.op["entry"] == "pymatgen":
            if self.kind == "art":
                return ctx.call(what, model.add_art_from_pymatgen, self.structures, self.pols)
            return ctx.call(what, model.add_dof_from_pymatgen, self.structures, self.pols, self.order)
        if self.kind == "art":
            return ctx.call(what, model.add_art_from_files, self.paths, self.fmt)
        return ctx.call(what, model.add_dof_from_files, self.paths, self.fmt, self.order)


def other_op(ctx, op, models, X):
    J = len(models[0].cart_basis_vectors)
    r = rng_of("other", op["seed"])
    m = r.uniform(size=J) < 0.4
    for model in models:
        if op["op"] == "mask":
            model.mask = m.copy()
        elif op["op"] == "unmask":
            ctx.call("unmask", model.unmask)
        elif op["op"] == "predict":
            ctx.call("predict", model.calc_polarizabilities, X)
        elif J:
            ctx.call("masked", model.get_masked_model, [int(j) for j in np.flatnonzero(m)])


def appended(ctx, before, now, what):
    """A successful addition only appends."""
    J, K = len(before["mask"]), len(now["mask"])
    ctx.require(K > J and len(now["basis"]) == K, "half-added", f"{what} returned, but {J} degrees of freedom became "
                f"{len(now['basis'])} with a mask of length {K}")
    ctx.require(now["dummy"] or len(now["interpolations"]) == K, "half-added",
                f"{what}: {K} degrees of freedom, {len(now['interpolations'])} interpolations")
    for n in ("basis", "interpolations", "mask"):
        d = same_state(before[n], now[n][:len(before[n])])
        ctx.require(d is None, "earlier-changed", f"{what} changed what was there before: {n}: {d}")
    ctx.require(not now["mask"][J:].any(), "earlier-changed", f"{what}: the new degrees of freedom are masked")
    for n in ("ref", "structure", "dummy"):
        d = same_state(before[n], now[n])
        ctx.require(d is None, "earlier-changed", f"{what} changed {n}: {d}")


def run(ctx, sc):
    world = World(sc["crystal"], sc["seed"])
    kind = sc["kind"]
    model, twin = new_model(ctx, world, kind, sc["dummy"]), new_model(ctx, world, kind, sc["dummy"])
    X, _ = world.batch(sc["seed"], 2)
    now = snapshot(model, X, kind)
    for k, op in enumerate(sc["ops"]):
        if op["op"] not in ("good", "bad"):
            other_op(ctx, op, [model, twin], X)
            now = snapshot(model, X, kind)
            continue
        req = Request(ctx, world, sc, k, op, now["basis"])
        what = f"addition {k} ({kind}, {req.op['entry']}, {op.get('how', 'good')})"
        ctx.arm(op.get("faults", []), op.get("delivery"))
        ctx.numfail = dict(op["numfail"]) if op.get("numfail") else None
        with strict_warnings(op.get("strict")):
            out = req.make(model, what)
        numfired = bool(ctx.numfail and ctx.numfail.get("hits"))
        ctx.numfail = None
        fired = ctx.disarm()
        before, now = now, snapshot(model, X, kind)
        disturbed = numfired or bool(fired)
        clean(ctx, what)
        if not out.ok:
            ctx.nontrivial = True
            ctx.probe("failed:" + type(out.exc).__name__)
            d = same_state(before, now)
            ctx.require(d is None, "half-added", f"{what} {out.describe()}, but the model changed: {d}")
        if not out.ok and disturbed:
            continue            # the twin never saw the attempt
        before_twin = copy.deepcopy(twin) if not out.ok else None
        with strict_warnings(op.get("strict")):
            again = req.make(twin, what + " on the twin")
        if out.ok:
            appended(ctx, before, now, what)
            ctx.probe("added")
            ctx.require(again.ok, "history", f"{what} succeeded, but a model without the failed attempts "
                        f"{again.describe()}")
        else:
            ctx.require(not again.ok and type(again.exc) is type(out.exc), "history",
                        f"{what} {out.describe()}, but a model without the failed attempts {again.describe()}")
            twin = before_twin
        d = same_state(snapshot(twin, X, kind), now, tol=1e-13)
        ctx.require(d is None, "history", f"after {what}: unlike a model without the failed attempts: {d}")
    ctx.require(not ctx.mutations, "modified", "adding degrees of freedom changed storage")
