"""C13: concurrent callers get the sequential results."""

import copy

from .gnn import *  # noqa: F403
from .gnn import REAL_GNN
from .models import REAL_MODEL, STUB_IO
from .c12 import frozen, state

from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum
import ramannoodle.structure as rs

ID = "C13"
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("each evaluation runs 2-4 simulated threads whose calls share models, spectra and structures or use files of their own, "
        "switching between them at seeded lines of library code and storage calls, and compares every result with that of "
        "the call made alone; non-trivial: at least one switch inside a call; distinct: different schedule or event log")
REAL = REAL_MODEL + REAL_GNN + ["CPython threads (one at a time, released by the simulator)"]
STUBS = STUB_IO + ["operating-system thread scheduler (replaced by a seeded one)"]

SHARED = ["predict", "predict", "masked", "phonon-spectrum", "md-spectrum", "measure", "measure-md", "repr", "specification",
          "equivalent", "displaced", "basis", "convolve"]
NEURAL = ["gnn", "gnn", "gnn", "gnn-phonons", "gnn-md", "gnn-forward"]
OWN = ["write-structure", "write-trajectory", "write-displaced", "read-outcar", "read-vasprun.xml", "read-poscar",
       "read-xdatcar", "missing", "truncated", "build-model", "new-structure", "dataset", "train"]


def gen(rng, tier):
    kind = rng.choice(["art", "interp"])
    neural = rng.random() < 0.45
    pool = SHARED + (NEURAL * 3 if neural else []) + (OWN if rng.random() < 0.6 else [])
    threads = [[{"do": rng.choice(pool), "seed": rng.randrange(1 << 30)} for _ in range(rng.randint(1, 3))]
               for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.3:      # everybody does the same
        threads = [[{"do": t["do"], "seed": rng.randrange(1 << 30)} for t in threads[0]] for _ in threads]
    lines = rng.choice([True, True, True, "ops", False])
    plan = {"mode": "random", "p": rng.choice([0.002, 0.01, 0.03, 0.1, 0.3, 1.0]), "seed": rng.randrange(1 << 30)}
    if lines is True and rng.random() < 0.5:    # switch around the lines that store something, then run on
        plan.update(p=rng.choice([0.0, 0.0005, 0.005]), hot=rng.choice([0.2, 0.5, 0.9]))
    return {"kind": kind, "gnn": gen_gnn(rng), "seed": rng.randrange(1 << 30), "threads": threads,
            "lines": lines, "delivery": delivery(rng, 0.4), "plan": plan}


def shrink(sc):
    for i in range(len(sc["threads"])):
        if len(sc["threads"]) > 1:
            yield {**sc, "threads": sc["threads"][:i] + sc["threads"][i + 1:]}
        for k in range(len(sc["threads"][i])):
            t = list(sc["threads"])
            t[i] = t[i][:k] + t[i][k + 1:]
            yield {**sc, "threads": t}


class Pool:
    """The shared objects; built twice so that one set stays as new."""

    def __init__(self, ctx, sc):
        self.kind = sc["kind"]
        self.world = world = World(sc["gnn"]["crystal"], sc["seed"])
        c = world.c
        self.structure = ref(c)
        self.model = new_model(ctx, world, sc["kind"])
        r = rng_of("pool", sc["seed"])
        for a in range(c.n):
            for d in frame(world, a, sc["seed"], False)[:2]:
                unit = np.zeros((c.n, 3))
                unit[a] = d
                for amps in ([0.05, -0.05], [0.05]):
                    if add(ctx, world, self.model, sc["kind"], "array", unit, amps,
                           world.alpha(np.array([x * unit for x in amps])), "pool").ok:
                        break
        J = len(self.model.mask)
        self.masked = self.model.get_masked_model([int(j) for j in np.flatnonzero(r.uniform(size=J) < 0.5)])
        self.phonons = Phonons(c.X + (np.arange(3 * c.n).reshape(c.n, 3) % 3 - 1) * (sc["seed"] % 2), r.uniform(50, 900, size=3),
                               r.normal(size=(3, c.n, 3)) * 0.1)
        self.trajectory = Trajectory(world.batch(sc["seed"], 7)[0], 1.0)
        self.spectrum = PhononRamanSpectrum(r.uniform(50, 900, size=4), r.normal(size=(4, 3, 3)))
        self.md = MDRamanSpectrum(r.normal(size=(9, 3, 3)), 1.0)
        self.gnn = make_gnn(sc["gnn"])[1]
        # a prediction switches a network that is still in training mode over; a bare forward pass does not
        self.gnn.train(sc["seed"] % 2 == 1 and all(t["do"] != "gnn-forward" for ts in sc["threads"] for t in ts))

    def state(self):
        out = {n: state(k, o, self.world) for n, k, o in (
            ("structure", "structure", self.structure), ("model", self.kind, self.model), ("masked", self.kind, self.masked),
            ("phonons", "phonons", self.phonons), ("trajectory", "trajectory", self.trajectory),
            ("spectrum", "phonon-spectrum", self.spectrum), ("md", "md-spectrum", self.md))}
        out["gnn"] = weights(self.gnn)
        return out


class Task:
    """One call with its own inputs and files."""

    def __init__(self, ctx, sc, world, name, t):
        self.do, self.name = t["do"], name
        r = rng_of("task", t["seed"])
        self.seed = t["seed"]
        self.size = int(r.integers(1, 6))
        self.pick = int(r.integers(1000))
        c = world.c
        self.X, u = world.batch(t["seed"], self.size)
        self.u = u
        self.pols = world.alpha(u)
        self.file = None
        if self.do.startswith("read-") or self.do == "truncated":
            fmt = self.do[5:] if self.do != "truncated" else "outcar"
            md = vasp.trajectory(c, 3, self.pick)
            if fmt == "poscar":
                text, facts = vasp.poscar(c, X=self.X[0] % 1, seed=self.pick)
            elif fmt == "xdatcar":
                text, facts = vasp.xdatcar(c, list(self.X % 1))
            else:
                text, facts = (vasp.outcar if fmt == "outcar" else vasp.vasprun)(
                    c, X=self.X[0] % 1, pol=self.pols[0], md=md if self.pick % 2 else None,
                    phonons=None if self.pick % 2 else vasp.modes(c, self.pick, 0), seed=self.pick)
            if self.do == "truncated":
                text = text[:int(len(text) * r.uniform(0.1, 0.6))]
            self.file = ctx.put(f"{name}/in", text)
            from .calcs import readers
            options = [x for x in readers(fmt, facts) if x[3]]
            self.reader = options[self.pick % len(options)]
        self.folder = ctx.path(name)
        ctx.put(f"{name}/keep", b"")

    def run(self, ctx, pool, where):
        """(outcome, files written); `where` separates the two executions."""
        c, do = pool.world.c, self.do
        label = f"{self.name} {do}"
        p = f"{self.folder}/{where}"
        model = [pool.model, pool.masked][self.pick % 2]
        call = ctx.call
        if do == "predict":
            return call(label, model.calc_polarizabilities, self.X)
        if do == "masked":
            J = len(pool.model.mask)
            out = call(label, pool.model.get_masked_model, [j for j in range(J) if (self.pick >> (j % 8)) & 1])
            if not out.ok:
                return out
            return call(label, out.value.calc_polarizabilities, self.X)
        if do == "phonon-spectrum":
            return call(label, pool.phonons.get_raman_spectrum, model)
        if do == "md-spectrum":
            return call(label, pool.trajectory.get_raman_spectrum, model)
        if do in ("measure", "measure-md"):
            s = pool.spectrum if do == "measure" else pool.md
            return call(label, s.measure, "polycrystalline", bool(self.pick & 1), 532, bool(self.pick & 2), 250)
        if do == "repr":
            return call(label, repr, model)
        if do == "specification":
            return call(label, model.get_specification_tuples if pool.kind == "art" else (lambda: model.interpolations))
        if do == "basis":
            return call(label, lambda: [model.cart_basis_vectors, model.mask, model.ref_structure, model.ref_polarizability])
        if do == "equivalent":
            return call(label, pool.structure.get_equivalent_displacements, self.u[0])
        if do == "displaced":
            return call(label, rs.get_displaced_positions, pool.structure, self.u[0], np.array([0.1, -0.2, 0.3]))
        if do == "convolve":
            r = rng_of("conv", self.seed)
            return call(label, convolve_spectrum, np.sort(r.uniform(0, 900, 5)), r.uniform(size=5))
        if do == "gnn":
            return call(label, pool.gnn.calc_polarizabilities, self.X % 1)
        if do == "gnn-phonons":
            return call(label, pool.phonons.get_raman_spectrum, pool.gnn)
        if do == "gnn-md":
            return call(label, pool.trajectory.get_raman_spectrum, pool.gnn)
        if do == "gnn-forward":
            t = torch.get_default_dtype()
            return call(label, pool.gnn.forward, torch.tensor(c.L).type(t).expand(self.size, 3, 3),
                        torch.tensor(np.array(c.Z), dtype=torch.int).expand(self.size, -1), torch.tensor(self.X % 1).type(t))
        if do == "write-structure":
            return call(label, generic.write_structure, c.L, list(c.Z), self.X[0] % 1, p, "poscar")
        if do == "write-trajectory":
            return call(label, generic.write_trajectory, c.L, list(c.Z), self.X % 1, p, "xdatcar")
        if do == "write-displaced":
            return call(label, rs.write_displaced_structures, pool.structure, self.u[0], np.array([0.1, -0.1]),
                        [p + "a", p + "b"], "poscar")
        if do.startswith("read-") or do == "truncated":
            return call(label, self.reader[1], self.file)
        if do == "missing":
            return call(label, generic.read_positions, p + "/none", "outcar")
        if do == "new-structure":
            return call(label, ReferenceStructure, list(c.Z), c.L.copy(), c.X.copy())
        if do == "dataset":
            def use():
                d = PolarizabilityDataset(c.L, list(c.Z), self.X, self.pols)
                d.scale_polarizabilities(self.pols[0], np.abs(self.pols[0]) + 1)
                return d
            return call(label, use)
        if do == "build-model":
            def build():
                m = type(pool.model)(pool.structure, pool.world.a0.copy())
                unit = np.zeros((c.n, 3))
                unit[0, self.pick % 3] = 1.0
                for amps in ([0.05, -0.05], [0.05]):
                    pols = pool.world.alpha(np.array([a * unit for a in amps]))
                    try:
                        if pool.kind == "art":
                            m.add_art(0, unit[0], np.array(amps), pols)
                        else:
                            m.add_dof(unit, np.array(amps), pols, 1)
                        break
                    except InvalidDOFException:
                        pass
                return [m.cart_basis_vectors, m.interpolations, m.calc_polarizabilities(self.X)]
            return call(label, build)
        assert do == "train"

        def train():
            torch.manual_seed(5)    # of this thread's own network; the shared one draws nothing
            m = copy.deepcopy(pool.gnn)
            X = np.concatenate([self.X] * 3) % 1 + 0.001 * np.arange(3 * self.size)[:, None, None] / self.size
            data = PolarizabilityDataset(c.L, list(c.Z), X, np.concatenate([self.pols + k for k in range(3)]))
            result = train_single_epoch(m, data, data, 2, torch.optim.SGD(m.parameters(), lr=0.01), torch.nn.MSELoss())
            return [list(result), [v for v in weights(m).values()]]
        return call(label, train)


def plain(out):
    return frozen(out.value) if out.ok else ["raised", type(out.exc).__name__]


def written(ctx, task, where):
    name = task.name + "/" + where
    return {k[len(name):]: v for k, v in files(ctx.tree()).items() if k.startswith(name)}


def run(ctx, sc):
    fresh, shared = Pool(ctx, sc), Pool(ctx, sc)
    tasks = [[Task(ctx, sc, fresh.world, f"t{i}-{k}", t) for k, t in enumerate(ts)] for i, ts in enumerate(sc["threads"])]
    want = [[None] * len(ts) for ts in tasks]
    for i, ts in enumerate(tasks):
        for k, task in enumerate(ts):
            out = task.run(ctx, copy.deepcopy(fresh), "alone")
            want[i][k] = plain(out)
    before = fresh.state()
    got = [[None] * len(ts) for ts in tasks]

    def body(i):
        def go():
            for k, task in enumerate(tasks[i]):
                got[i][k] = plain(task.run(ctx, shared, "together"))
        return go

    ctx.arm([], sc["delivery"])
    ctx.threads(sc["plan"], [(f"t{i}", body(i)) for i in range(len(tasks))], lines=sc["lines"])
    ctx.disarm()
    ctx.nontrivial = len(ctx.switches) > len(tasks)
    for i, ts in enumerate(tasks):
        for k, task in enumerate(ts):
            refused = isinstance(want[i][k], list) and len(want[i][k]) == 2 and isinstance(want[i][k][0], str)
            ctx.probe(("raised:" if refused else "ok:") + task.do)
            d = same_state(want[i][k], got[i][k], tol=1e-12)
            ctx.require(d is None, "not-sequential",
                        f"{task.do} in thread {i} (call {k}) gives another result than alone: {d}")
            d = same_state(written(ctx, task, "alone"), written(ctx, task, "together"))
            ctx.require(d is None, "not-sequential", f"{task.do} in thread {i} (call {k}) wrote other files than alone: {d}")
    d = same_state(before, shared.state(), tol=1e-13)
    ctx.require(d is None, "changed", f"the threads changed a shared object: {d}")
    clean(ctx, "threads")
