"""C17: datasets contain every file in order, or are not created."""

import pymatgen.core

from .gnn import *  # noqa: F403
from .models import STUB_IO
from .calcs import MOD

import ramannoodle.io.pymatgen as rn_pymatgen
from torch.utils.data import DataLoader

ID = "C17"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("each evaluation reads or builds several datasets from seeded lists of calculations (any length, duplicates), with a "
        "bad entry or a storage fault at a seeded position of some lists, between and after which the datasets already made "
        "are rescaled (also with failing requests) and compared with the generator's numbers; non-trivial: a list with a bad "
        "entry or fault, or a rescaling; distinct: different event log")
REAL = ["ramannoodle.io (outcar, vasprun, generic, pymatgen)", "ramannoodle.dataset.torch", "torch, pymatgen, tqdm", "CPython io stack"]
STUBS = STUB_IO + ["the ab-initio code (a generator that prints files in its format from a known crystal)"]

BAD = ["missing", "folder", "dangling", "empty", "cut", "garbage", "no-polarizability", "other-format", "lattice", "atoms", "swapped",
       "regrouped", "more-atoms", "drift"]
EXPECT = {"missing": (FileNotFoundError,), "folder": (IsADirectoryError,), "dangling": (FileNotFoundError,)}
INVALID = ["empty", "cut", "garbage", "no-polarizability", "other-format"]


def gen(rng, tier):
    if rng.random() < 0.3:
        crystal = {"proto": rng.choice(sorted(vasp.PROTOS))}
    else:
        crystal = {"n": rng.randint(1, 6), "kinds": rng.randint(1, 3), "mixed": rng.random() < 0.3,
                   "lattice": rng.choice([x for x in LATTICES if x not in ("large", "small")]), "seed": rng.randrange(1 << 30)}
    ops = []
    for _ in range(rng.randint(1, 6)):
        roll = rng.random()
        if roll < 0.5:
            pool = rng.choice([1, 2, 3, 5, 8])
            length = rng.choice([1, 2, 3, 5, 8, rng.randint(1, 20)])
            if rng.random() < (0.02 if tier == "quick" else 0.04):
                length = rng.choice([99, 100, 101, 300])
            o = {"do": "read", "fmt": rng.choice(["outcar", "vasprun.xml"]), "via": rng.choice(["generic", "module"]), "pool": pool,
                 "length": length, "spell": rng.choice(["path", "rel", "full", "single"]), "delivery": delivery(rng, 0.3), "faults": [],
                 "bad": None, "seed": rng.randrange(1 << 30)}
            kind = rng.random()
            if kind < 0.45:
                o["bad"] = {"kind": rng.choice(BAD), "at": round(rng.random(), 4), "where": round(rng.uniform(0.02, 0.98), 4)}
            elif kind < 0.75:
                o["faults"] = [{"op": rng.choice(["open", "open", "read", "read", "close"]), "at": rng.choice([0, 1, rng.randint(0, 30)]),
                                "err": rng.choice(READ_ERRNO + OPEN_R_ERRNO)}]
        elif roll < 0.62:
            o = {"do": "pymatgen", "length": rng.choice([1, 2, 5, 40]), "seed": rng.randrange(1 << 30),
                 "bad": rng.choice([None, None, {"kind": rng.choice(["lattice", "atoms", "swapped", "more-atoms", "none", "drift", "count",
                                                                     "shape"]),
                                                 "at": round(rng.random(), 4)}])}
        elif roll < 0.9:
            o = {"do": "scale", "seed": rng.randrange(1 << 30), "which": rng.random(),
                 "how": rng.choice(["values", "values", "values", "own", "other", "zero", "bad-mean", "bad-stddev", "none", "text", "object",
                                    "list"])}
        else:
            o = {"do": "load", "seed": rng.randrange(1 << 30), "which": rng.random(), "size": rng.choice([1, 2, 3, 7])}
        ops.append(o)
    return {"crystal": crystal, "dtype": rng.choice(["float64", "float32"]), "ops": ops, "seed": rng.randrange(1 << 30)}


def shrink(sc):
    c = sc["crystal"]
    if "n" in c and c["n"] > 1:
        yield {**sc, "crystal": {**c, "n": c["n"] - 1}}
    for i, o in enumerate(sc["ops"]):
        for k in ("length", "pool"):
            for v in (1, 2, o.get(k, 0) // 2, o.get(k, 0) - 1):
                if 0 < v < o.get(k, 0):
                    yield {**sc, "ops": sc["ops"][:i] + [{**o, k: v}] + sc["ops"][i + 1:]}


def other(c, kind, r):
    """A different crystal, or None where the kind does not exist for this one."""
    if kind == "lattice":
        L = c.L.copy()
        L[int(r.integers(3))] *= 1 + float(r.choice([-1, 1])) * float(r.choice([0.001, 0.01, 0.3]))
        return vasp.Crystal(L, c.Z, c.X)
    if kind == "atoms":
        Z = list(c.Z)
        for k in np.flatnonzero(np.array(Z) == Z[int(r.integers(len(Z)))]):
            Z[k] = 92
        return vasp.Crystal(c.L, Z, c.X)
    if kind == "swapped":       # the same atoms in another order
        Z = sorted(c.Z)
        Z = Z if Z != c.Z else Z[::-1]
        return vasp.Crystal(c.L, Z, c.X) if Z != c.Z else None
    if kind == "regrouped":     # the same species and number of atoms, another composition
        if len(set(c.Z)) < 2 or c.n < 3:
            return None
        Z = list(c.Z)
        first = Z.index(next(z for z in Z if z != Z[0]))
        Z = [Z[0]] * (first + 1) + Z[first + 1:] if len(set([Z[0]] + Z[first + 1:])) > 1 else [Z[0]] * (first - 1) + Z[first:] + [Z[-1]]
        return vasp.Crystal(c.L, Z, c.X) if Z != c.Z and len(Z) == c.n else None
    if kind == "more-atoms":
        return vasp.Crystal(c.L, list(c.Z) + [c.Z[-1]], np.concatenate([c.X, [[0.43, 0.57, 0.31]]]))
    return c


def drifted(c, k):
    """Slowly growing cells: neighbours are alike, the ends are not."""
    return vasp.Crystal(c.L * (1 + 8e-6 * k), c.Z, c.X)


class Book:
    """The datasets made so far and what they must hold."""

    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.c = vasp.crystal(sc["crystal"])
        self.made = []

    def entry(self, c, fmt, seed, pol=True):
        r = rng_of("entry", seed)
        X = (c.X + r.normal(size=c.X.shape) * 0.02) % 1.0
        P = r.normal(size=(3, 3)) + np.eye(3) * r.uniform(1, 9)
        style = {k: True for k in ("warning", "symmetry", "blank", "rpa", "earlypos") if r.uniform() < 0.2}
        return (vasp.outcar if fmt == "outcar" else vasp.vasprun)(c, X=X, pol=(P + P.T) / 2 if pol else None, style=style, seed=seed)

    # ---- reading
    def read(self, k, o):
        ctx, c = self.ctx, self.c
        r = rng_of("list", o["seed"])
        label = f"{k} read {o['length']} {o['fmt']}"
        single = o["spell"] == "single"
        length = 1 if single else o["length"]
        bad = o["bad"]
        kind = bad["kind"] if bad else None
        pool = min(o["pool"], length)
        if kind == "drift":
            length = pool = max(12, min(length, 40)) if not single else 1
        facts, names = [], []
        for i in range(pool):
            crystal = drifted(c, i) if kind == "drift" else c
            text, f = self.entry(crystal, o["fmt"], o["seed"] + i)
            names.append(f"set{k}/{i}")
            facts.append(f)
            ctx.put(names[-1], text)
        order = [int(x) for x in r.integers(pool, size=length)] if kind != "drift" else list(range(length))
        names, facts = [names[i] for i in order], [facts[i] for i in order]
        wrong = None
        if kind and kind != "drift":
            at = int(bad["at"] * length)
            wrong = self.spoil(k, o, kind, bad, r, at, names)
            if wrong and at == 0 and length == 1 and kind not in INVALID and kind not in EXPECT:
                wrong = None        # a set of one crystal: whatever it is
                facts = [self.entry(other(c, kind, rng_of("list-other", o["seed"])), o["fmt"], o["seed"] + 1000)[1]]
            elif wrong and at == 0 and kind not in INVALID and kind not in EXPECT and all(n == names[0] for n in names):
                wrong = None
        elif kind == "drift" and length > 1:
            wrong = (IncompatibleStructureException,)
        paths = [ctx.path(n) if o["spell"] == "full" else Path(ctx.path(n)) if o["spell"] == "path" else n for n in names]
        if single:
            paths = ctx.path(names[0])
        before = ctx.tree()
        ctx.arm(o["faults"], capped(o["delivery"], max([len(v) for v in files(before).values()]) * length, 2000))
        mark = len(ctx.fired)
        if o["via"] == "generic":
            out = ctx.call(label, generic.read_polarizability_dataset, paths, o["fmt"])
        else:
            out = ctx.call(label, MOD[o["fmt"]].read_polarizability_dataset, paths)
        fired = fired_errors(ctx)
        ctx.disarm()
        clean(ctx, label)
        ctx.require(not ctx.mutations and ctx.tree() == before, "modified", f"{label} changed storage {ctx.mutations[:3]}")
        if wrong:
            ctx.nontrivial = True
            ctx.probe("bad:" + kind)
            ctx.require(not out.ok, "accepted", f"{label}: one entry is bad ({kind}), but a dataset results")
            ctx.require(isinstance(out.exc, wrong), "wrong-error", f"{label}: one entry is bad ({kind}), but it {out.describe()}")
        elif not out.ok:
            ctx.require(fired and any(is_os_error(out.exc, e) for e in fired), "wrong-error",
                        f"{label} {out.describe()} (injected: {fired})")
        else:
            # an error of closing after everything was read loses nothing
            hard = [x for x in ctx.fired[mark:] if not x.endswith(("@close", "@stat", "@access", "@seek")) and "EINTR" not in x]
            ctx.require(not hard, "silent", f"{label} returned despite {hard}")
            self.keep(label, out.value, facts)
            if length > 90:
                ctx.probe("long-lists")
            if len(set(names)) < length:
                ctx.probe("lists-with-duplicates")
        if fired:
            ctx.nontrivial = True
        extra = r.uniform()
        if extra < 0.06:                # nothing that could become a dataset
            what, fmt = [([], o["fmt"]), (paths, "poscar"), (paths, "xdatcar"), (paths, "no format"), (None, o["fmt"]),
                         ([None], o["fmt"])][int(extra * 100)]
            label = f"{k} read of {'these files' if what is paths else what} as {fmt}"
            out = ctx.call(label, generic.read_polarizability_dataset, what, fmt)
            clean(ctx, label)
            ctx.require(not out.ok, "accepted", f"{label} {out.describe()}")
            ctx.require(isinstance(out.exc, (ValueError, TypeError, IndexError)), "wrong-error", f"{label} {out.describe()}")
            ctx.probe("bad-requests")

    def spoil(self, k, o, kind, bad, r, at, names):
        """Replaces an entry; returns the exceptions that may report it."""
        ctx, c = self.ctx, self.c
        name = f"set{k}/bad"
        seed = o["seed"] + 1000
        if kind == "missing":
            names[at] = name
        elif kind == "folder":
            ctx.put(name + "/x", b"")
            names[at] = name
        elif kind == "dangling":
            os.symlink("nowhere", ctx.path(name))
            names[at] = name
        elif kind in INVALID:
            text = self.entry(c, o["fmt"], seed, pol=kind != "no-polarizability")[0]
            if kind == "empty":
                text = ""
            elif kind == "cut":         # before the polarizability
                mark = "MACROSCOPIC STATIC DIELECTRIC TENSOR" if o["fmt"] == "outcar" else '<varray name="epsilon'
                end = max(text.rfind(mark), 1)
                text = text[:int(end * bad["where"])]
            elif kind == "garbage":
                text = "".join(chr(int(x)) for x in r.integers(32, 127, size=400))
            elif kind == "other-format":
                text = self.entry(c, "vasprun.xml" if o["fmt"] == "outcar" else "outcar", seed)[0]
            ctx.put(name, text)
            names[at] = name
        else:
            d = other(c, kind, rng_of("list-other", o["seed"]))
            if d is None:
                return None
            ctx.put(name, self.entry(d, o["fmt"], seed)[0])
            names[at] = name
            return (IncompatibleStructureException,)
        return EXPECT.get(kind, (InvalidFileException,))

    # ---- pymatgen
    def pymatgen(self, k, o):
        ctx, c = self.ctx, self.c
        r = rng_of("pymatgen", o["seed"])
        n = o["length"]
        kind = o["bad"] and o["bad"]["kind"]
        at = o["bad"] and int(o["bad"]["at"] * n)
        label = f"{k} pymatgen {n} {kind}"
        X = (c.X + r.normal(size=(n,) + c.X.shape) * 0.02) % 1.0
        P = r.normal(size=(n, 3, 3))
        P = P + P.transpose(0, 2, 1) + 4 * np.eye(3)
        structures = [pymatgen.core.Structure(c.L, c.symbols(), x) for x in X]
        wrong = kind is not None
        if kind in ("lattice", "atoms", "swapped", "more-atoms"):
            d = other(c, kind, r)
            if d is None or n == 1:
                wrong = False
            else:
                structures[at] = pymatgen.core.Structure(d.L, d.symbols(), d.X)
        elif kind == "drift":
            structures = [pymatgen.core.Structure(drifted(c, i).L, c.symbols(), x) for i, x in enumerate(X)]
            wrong = n > 20
            if 1 < n <= 20:
                return
        elif kind == "none":
            structures[at] = None
        elif kind == "count":
            structures.pop(at)
        elif kind == "shape":
            P = P[:, :2]
        out = ctx.call(label, rn_pymatgen.construct_polarizability_dataset, structures, P)
        if wrong:
            ctx.nontrivial = True
            ctx.probe("bad:pymatgen-" + kind)
            expect = IncompatibleStructureException if kind in ("lattice", "atoms", "swapped", "more-atoms", "drift") else (
                TypeError, ValueError, IndexError)
            ctx.require(not out.ok, "accepted", f"{label}: bad input, but a dataset results")
            ctx.require(isinstance(out.exc, expect), "wrong-error", f"{label} {out.describe()}")
        else:
            ctx.require(out.ok, "refused", f"{label} {out.describe()}")
            facts = [{"lattice": c.L, "numbers": c.Z, "positions": x, "pol": p} for x, p in zip(X, P.copy())]
            P += 1e3        # the caller goes on using its arrays
            self.keep(label, out.value, facts)

    # ---- datasets
    def keep(self, label, dataset, facts):
        pol = np.array([f["pol"] for f in facts])
        with np.errstate(all="ignore"):
            scaled = (pol - pol.mean(0)) / pol.std(0)
        self.made.append([label, dataset, facts, pol, scaled, pol.std(0)])
        self.ctx.probe("datasets")
        self.ctx.probe("samples", len(facts))

    def verify(self, when):
        for label, d, facts, pol, scaled, divisor in self.made:
            what = f"dataset of '{label}' {when}"
            n, require = len(facts), self.ctx.require
            single = self.sc["dtype"] == "float32"
            tol = 3e-7 if single else 1e-12
            require(d.num_samples == n and len(d) == n, "samples", f"{what} has {d.num_samples} samples instead of {n}")
            require(list(d.atomic_numbers) == list(facts[0]["numbers"]) and d.num_atoms == len(facts[0]["numbers"]), "atoms",
                    f"{what} has other atoms")
            want = np.array([f["positions"] for f in facts])
            require(same_mod1(d.positions, want, tol), "positions", f"{what}: {diff(d.positions, want)}")
            require(same(d.polarizabilities, pol, 1e-12, 1e-12), "polarizabilities", f"{what}: {diff(d.polarizabilities, pol)}")
            require(same(d.mean_polarizability, pol.mean(0), 1e-9, 1e-9) and same(d.stddev_polarizability, pol.std(0), 1e-9, 1e-9),
                    "statistics", f"{what}: mean or standard deviation")
            vectors = np.stack([scaled[:, i, j] for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))], axis=1)
            got = d.scaled_polarizabilities
            # components that do not vary are scaled by their rounding error
            solid = np.broadcast_to((divisor > 1e-6)[[0, 1, 2, 0, 0, 1], [0, 1, 2, 1, 2, 2]], vectors.shape)
            rel = 3e-6 if single else 1e-8
            require(got.shape == vectors.shape and np.allclose(got[solid], vectors[solid], rtol=rel, atol=rel), "scaling",
                    f"{what}: {diff(got, vectors)}")
            i = self.sc["seed"] % n
            L, Z, X, P = d[i]
            require(same(L.numpy(), facts[0]["lattice"], 1e-6 if single else 1e-12, 1e-6 if single else 1e-12), "lattice",
                    f"{what}: {diff(L.numpy(), facts[0]['lattice'])}")
            require(Z.tolist() == list(facts[0]["numbers"]) and same_mod1(X.numpy(), want[i], tol)
                    and np.array_equal(P.numpy(), got[i], equal_nan=True), "samples", f"sample {i} of {what}")
            dtypes = {str(t.dtype) for t in (L, X, P)}
            require(dtypes == {"torch." + self.sc["dtype"]}, "data-type", f"sample {i} of {what} has types {dtypes}")

    def scale(self, k, o):
        if not self.made:
            return
        ctx = self.ctx
        record = self.made[int(o["which"] * len(self.made))]
        _, d, _, pol, _, _ = record
        r = rng_of("scale", o["seed"])
        mean, std = r.normal(size=(3, 3)), r.uniform(0.2, 3, size=(3, 3))
        how = o["how"]
        fine = how in ("values", "own", "other", "zero")
        if how == "own":
            mean, std = d.mean_polarizability, d.stddev_polarizability
        elif how == "other":
            e = self.made[-1][1]
            mean, std = e.mean_polarizability, e.stddev_polarizability
        elif how == "zero":
            std[int(r.integers(3)), int(r.integers(3))] = 0.0
        elif how == "bad-mean":
            mean = [mean[:2], mean[0], mean[None], np.append(mean, 1.0)][int(r.integers(4))]
        elif how == "bad-stddev":
            std = [std[:2], std[0], std[None], np.float64(2.0)][int(r.integers(4))]
        elif how == "none":
            std = None
        elif how == "text":
            std = np.array([["a"] * 3] * 3)
        elif how == "object":
            std = np.array([[None] * 3] * 3)
        elif how == "list":
            std = std.tolist()
        label = f"{k} scale {how}"
        kept = None if not fine else (np.array(mean), np.array(std))
        out = ctx.call(label, d.scale_polarizabilities, mean, std)
        ctx.nontrivial = True
        if fine:
            ctx.require(out.ok, "refused", f"{label} {out.describe()}")
            mean += 5.0     # the caller goes on using its arrays
            std *= 2.0
            with np.errstate(all="ignore"):
                record[4:] = [(pol - kept[0]) / kept[1], kept[1]]
            ctx.probe("rescaled")
        elif out.ok:
            ctx.fail("accepted", f"{label}: a senseless request is accepted")
        else:
            ctx.probe("rescaling-refused")

    def load(self, k, o):
        """What training sees: every sample once."""
        if not self.made:
            return
        _, d, facts, _, _, _ = self.made[int(o["which"] * len(self.made))]
        rows = []

        def go():
            for L, Z, X, P in DataLoader(d, batch_size=o["size"], shuffle=False):
                rows.append((X.numpy().copy(), P.numpy().copy()))
        out = self.ctx.call(f"{k} load", go)
        self.ctx.require(out.ok, "loading", f"loading batches {out.describe()}")
        X = np.concatenate([x for x, _ in rows])
        self.ctx.require(np.array_equal(X, d.positions) and np.array_equal(np.concatenate([p for _, p in rows]), d.scaled_polarizabilities,
                                                                          equal_nan=True), "loading", "batches hold other samples")


def run(ctx, sc):
    with dtype(sc["dtype"]):
        book = Book(ctx, sc)
        for k, o in enumerate(sc["ops"]):
            getattr(book, o["do"])(k, o)
            book.verify(f"after {k} {o['do']}")
