"""C14: the whole pipeline yields the true spectrum despite failures."""

from .models import *  # noqa: F403
from .models import REAL_MODEL, STUB_IO

from sim.world import parse_poscar
from ramannoodle.dynamics import Phonons
from ramannoodle.spectrum.utils import convolve_spectrum
import ramannoodle.structure as rs

ID = "C14"
RUNS = {"quick": 400, "thorough": 12000}
RULE = ("each evaluation simulates one project: a driver following the documented workflow, a cluster whose jobs are queued, "
        "write their output gradually, are killed, lost, restarted and finish in seeded order, and a disk that fails at "
        "seeded calls; the driver polls, is restarted or killed, and finally measures phonon and molecular-dynamics "
        "spectra, whole and masked, which are compared with spectra computed directly from the crystal's true "
        "polarizability; non-trivial: something failed or was read too early; distinct: different event log")
REAL = REAL_MODEL + ["ramannoodle.dynamics", "ramannoodle.spectrum"]
STUBS = STUB_IO + ["the cluster and the ab-initio code (discrete-event simulation printing files of its formats)"]
ATOM = 0.1          # Å


def gen(rng, tier):
    crystal = gen_model_crystal(rng, small=True)
    if "n" in crystal:
        crystal["n"] = min(crystal["n"], 3)
    big = rng.random() < 0.02
    if big:
        crystal = {"n": rng.choice([6, 9, 9, 22]), "kinds": rng.randint(1, 3), "mixed": False, "lattice": "cubic",
                   "seed": rng.randrange(1 << 30)}
    sc = {"crystal": crystal, "seed": rng.randrange(1 << 30), "kind": rng.choice(["art", "art", "interp"]),
          "fmt": rng.choice(["outcar", "vasprun.xml", "mixed"]), "phonon": rng.choice(["outcar", "vasprun.xml"]),
          "md": rng.choice(["outcar", "vasprun.xml", "xdatcar"]), "steps": rng.choice([3, 10, 25, 40]) if rng.random() < 0.95 else rng.choice([101, 130, 257, 520]),
          "imaginary": rng.choice([0, 3]), "tilted": rng.random() < 0.3, "patience": rng.choice([0.02, 0.1, 0.4]),
          "trouble": 0.3 if big else rng.choice([0.0, 0.3, 0.7, 0.9]), "events": [],
          "peek": 0.05 if big else rng.choice([0, 0, 0.3, 1.0]), "inplace": rng.random() < 0.5,
          "measure": [rng.random() < 0.5, rng.choice([532, 785]), rng.random() < 0.5, rng.choice([77, 300])]}
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        roll = rng.random()
        e = {"at": rng.choice([rng.randint(0, 12), rng.randint(0, 60)])}
        if roll < 0.5:
            e["faults"] = [{"op": rng.choice(["open", "read", "write", "close", "read", "write"]), "at": rng.randint(0, 4),
                            "err": rng.choice(["EIO", "ENOSPC", "ESTALE", "EACCES"])}]
        elif roll < 0.7:
            e["restart"] = True
        elif roll < 0.85:
            e["crash"] = {"op": "any", "at": rng.randint(0, 8), "crash": True, "arg": rng.choice([0, 1, 100, 5000])}
        else:
            e["delivery"] = delivery(rng)
        sc["events"].append(e)
    sc["events"].sort(key=lambda e: e["at"])
    return sc


def shrink(sc):
    c = sc["crystal"]
    if "n" in c and c["n"] > 1:
        yield {**sc, "crystal": {**c, "n": c["n"] - 1}}
    if sc["trouble"]:
        yield {**sc, "trouble": 0.0}
    if sc["steps"] > 3:
        yield {**sc, "steps": 3}
    if sc["peek"]:
        yield {**sc, "peek": 0}
    if sc["inplace"]:
        yield {**sc, "inplace": False}


class Cluster:
    """Jobs whose output at any time is a function of the time they were submitted."""

    def __init__(self, ctx, sc, world, submitted, now):
        self.ctx, self.sc, self.world = ctx, sc, world
        self.submitted, self.now = submitted, now       # name -> time
        self.cache, self.lines, self.size, self.done = {}, {}, {}, set()

    def submit(self, name):
        if name not in self.submitted:
            self.submitted[name] = self.now

    def output(self, name):
        """The complete output of a job, computed from its input file."""
        if name not in self.cache:
            w, sc = self.world, self.sc
            c = w.c
            kind, fmt = name.split("/")[0], name.rsplit(".", 1)[1]
            fmt = "vasprun.xml" if fmt == "xml" else fmt
            fn = vasp.outcar if fmt == "outcar" else vasp.vasprun
            style = {k: True for k in ("warning", "symmetry", "blank") if rng_of("style", sc["seed"], name).uniform() < 0.3}
            if kind == "phonon":
                text, facts = fn(c, phonons=vasp.modes(c, sc["seed"], sc["imaginary"]), style=style, seed=sc["seed"])
            elif kind == "md":
                md = vasp.trajectory(c, sc["steps"], sc["seed"])
                if fmt == "xdatcar":
                    text, facts = vasp.xdatcar(c, [x for x, _ in md])
                else:
                    text, facts = fn(c, md=md, style=style, seed=sc["seed"], timestep=1.5)
            elif kind == "ref":
                text, facts = fn(c, pol=w.a0, style=style, seed=sc["seed"])
            else:
                L, Z, X = parse_poscar(self.ctx.get(name.rsplit("/", 1)[0] + "/POSCAR-" + name.rsplit("/", 1)[1].split(".")[0]))
                self.ctx.require(Z == c.Z and same(L, c.L, 1e-9, 1e-9), "input", f"the structure written for {name} is another")
                text, facts = fn(c, X=X % 1.0, pol=w.alpha(c.cart_of(X)), style=style, seed=sc["seed"])
            self.cache[name] = (text.encode(), facts)
        return self.cache[name]

    def timeline(self, name):
        """What happens to a job: (until when, what it does, how far it gets), relative to its submission."""
        if name not in self.lines:
            r = rng_of("job", self.sc["seed"], name)
            t = r.exponential(1.0)
            line = [(t, "queued", 0.0)]
            while r.uniform() < self.sc["trouble"]:
                run, stop, back = r.exponential(1.0) + 0.01, r.uniform(), r.exponential(1.0)
                what = ["killed", "lost", "emptied"][int(r.integers(3))]
                line += [(t + run, "run", stop / run), (t + run + back, what, stop)]
                t += run + back
            run = r.exponential(1.0) + 0.01
            line.append((t + run, "run", 1 / run))
            self.lines[name] = line
        return self.lines[name]

    def progress(self, name):
        """(fraction written or None, finished)."""
        t, since = self.now - self.submitted[name], 0.0
        for until, what, amount in self.timeline(name):
            if t < until:
                if what == "run":
                    return (t - since) * amount, False
                if what != "queued":
                    self.ctx.probe("job-" + what)
                return {"killed": amount, "emptied": 0.0}.get(what), False
            since = until
        return 1.0, True

    def tick(self, dt):
        self.now += dt
        for name in self.submitted:
            if name in self.done:
                continue
            part, end = self.progress(name)
            if end:
                self.done.add(name)
            if name not in self.size:
                have = self.ctx.get(name)
                self.size[name] = None if have is None else len(have)
            have = self.size[name]
            if part is None:
                if have is not None:
                    os.unlink(self.ctx.path(name))
                    self.size[name] = None
                continue
            data = self.output(name)[0]
            p = int(part * len(data))
            # Fortran writes records; a number is never torn (see C08 for torn numbers)
            while 0 < p < len(data) and data[p:p + 1].strip() and data[p - 1:p].strip():
                p -= 1
            if have != p:
                self.ctx.put(name, data[:p])
                self.size[name] = p

    def quiet(self):
        return all(n in self.done or self.progress(n)[1] for n in self.submitted)


class Driver:
    def __init__(self, ctx, sc, world, notes):
        self.ctx, self.sc, self.world, self.notes = ctx, sc, world, notes
        self.submitted = notes.setdefault("submitted", {})
        self.cluster = Cluster(ctx, sc, world, self.submitted, notes.setdefault("now", 0.0))
        self.rng = rng_of("driver", sc["seed"], notes.get("lives", 0))
        self.restarted = False
        self.motions = {}

    def call(self, label, fn, *args, **kw):
        """A library call during which the cluster goes on and the disk may fail."""
        ctx, k = self.ctx, self.notes.get("calls", 0)
        self.notes["calls"] = k + 1
        self.notes["now"] = self.cluster.now
        faults, mode = [], {}
        for e in self.sc["events"]:
            if e["at"] == k:
                faults += e.get("faults", [])
                mode = e.get("delivery", mode)
                if e.get("crash") and not self.notes.get("lives"):
                    faults.append(e["crash"])
                if e.get("restart"):
                    self.restarted = True
        ctx.on_step = lambda kind, rel: self.cluster.tick(self.sc["patience"] * 0.01)
        ctx.arm(faults, mode)
        out = ctx.call(label, fn, *args, **kw)
        fired = [f["err"] for f in ctx.disarm() if f.get("err")]
        ctx.on_step = None
        clean(ctx, label)
        if fired:
            ctx.nontrivial = True
        self.cluster.tick(float(self.rng.exponential(self.sc["patience"])))
        return out, fired

    def insist(self, label, fn, *args, acceptable=lambda v: True, **kw):
        """Repeat a reading until the file is there and complete."""
        for _ in range(100000):
            quiet = self.cluster.quiet()
            out, fired = self.call(label, fn, *args, **kw)
            if out.ok and acceptable(out.value):
                return out.value
            self.ctx.nontrivial = True
            self.ctx.probe("too-early" if not fired else "disk-failure")
            if not out.ok:
                self.judge(label, out, fired)
            self.ctx.require(fired or not quiet, "no-progress", f"{label} {out.describe()} although all jobs have finished")
            self.cluster.tick(self.sc["patience"])
        return self.ctx.fail("no-progress", f"{label} never succeeds")

    def judge(self, label, out, fired):
        if fired:
            ok = isinstance(out.exc, OSError)
        else:
            ok = isinstance(out.exc, (InvalidFileException, FileNotFoundError))
        self.ctx.require(ok, "wrong-error", f"{label} {out.describe()} (injected: {fired})")

    # ---- the workflow
    def plan(self):
        """The displacements whose polarizability is needed."""
        w = self.world
        jobs = []
        for o in sorted(set(w.orbit)):
            members = [a for a in range(w.c.n) if w.orbit[a] == o]
            a = members[int(rng_of("member", self.sc["seed"], o).integers(len(members)))]
            for k, d in enumerate(frame(w, a, self.sc["seed"], self.sc["tilted"])):
                fmt = self.sc["fmt"]
                if fmt == "mixed":
                    fmt = ["outcar", "vasprun.xml"][(a + k) % 2]
                jobs.append((a, k, d, fmt))
        return [jobs[i] for i in rng_of("order", self.sc["seed"]).permutation(len(jobs))]

    def prepare(self):
        ctx, sc, w = self.ctx, self.sc, self.world
        self.structure = self.insist("read reference structure", generic.read_ref_structure, ctx.path("POSCAR"), "poscar")
        for kind, fmt in (("ref", "outcar"), ("phonon", sc["phonon"]), ("md", sc["md"])):
            self.cluster.submit(f"{kind}/out.{fmt}")
        for a, k, d, fmt in self.plan():
            names = [f"disp/{a}-{k}/{s}.{fmt}" for s in "pm"]
            if all(n in self.submitted for n in names):
                continue
            paths = [ctx.path(f"disp/{a}-{k}/POSCAR-{s}") for s in "pm"]
            os.makedirs(os.path.dirname(paths[0]), exist_ok=True)
            amps = np.array([ATOM, -ATOM])
            for attempt in range(1000):
                if sc["kind"] == "art":
                    out, fired = self.call(f"write {a} {k}", rs.write_ast_displaced_structures, self.structure, a, d * 2.5, amps,
                                           paths, "poscar", overwrite=True)
                else:
                    u = np.zeros((w.c.n, 3))
                    u[a] = d
                    out, fired = self.call(f"write {a} {k}", rs.write_displaced_structures, self.structure, u, amps, paths,
                                           "poscar", overwrite=True)
                if out.ok:
                    break
                ctx.require(fired and isinstance(out.exc, OSError), "wrong-error",
                            f"writing displaced structures {out.describe()} (injected: {fired})")
                ctx.probe("disk-failure")
            ctx.require(out.ok, "no-progress", "displaced structures cannot be written")
            for n in names:
                self.cluster.submit(n)
            if self.restarted:
                return

    def collect(self):
        ctx, sc, w = self.ctx, self.sc, self.world
        ref_pol = self.insist("read reference polarizability", generic.read_positions_and_polarizability,
                              ctx.path("ref/out.outcar"), "outcar")[1]
        model = (ARTModel if sc["kind"] == "art" else InterpolationModel)(self.structure, ref_pol)
        pending = self.plan()
        for _ in range(100000):
            if not pending:
                break
            quiet = self.cluster.quiet()
            i = int(self.rng.integers(len(pending)))
            a, k, d, fmt = pending[i]
            files_ = [ctx.path(f"disp/{a}-{k}/{s}.{fmt}") for s in "pm"]
            unit = np.zeros((w.c.n, 3))
            unit[a] = d
            out = None
            for some in (files_, files_[:1]):
                if sc["kind"] == "art":
                    out, fired = self.call(f"add {a} {k} {len(some)}", model.add_art_from_files, some, fmt)
                else:
                    out, fired = self.call(f"add {a} {k} {len(some)}", model.add_dof_from_files, some, fmt, 1)
                if out.ok or not isinstance(out.exc, InvalidDOFException):
                    break
            if self.restarted:
                return None
            if out.ok:
                pending.pop(i)
                ctx.probe("added")
                if rng_of("peek", sc["seed"], self.notes["calls"]).uniform() < sc["peek"]:
                    self.peek(model)
                    if self.restarted:
                        return None
                continue
            if isinstance(out.exc, InvalidDOFException):
                covered = max([abs(float((b * unit).sum())) for b in model.cart_basis_vectors], default=0.0)
                ctx.require(covered > 1e-3, "rejected", f"displacement {d} of atom {a} {out.describe()}")
                pending.pop(i)
                continue
            ctx.nontrivial = True
            ctx.probe("disk-failure" if fired else "too-early")
            self.judge(f"adding {a} {k}", out, fired)
            ctx.require(fired or not quiet, "no-progress", f"adding {a} {k} {out.describe()} although all jobs have finished")
            if quiet and not fired:
                break
            self.cluster.tick(sc["patience"])
        ctx.require(not pending, "no-progress", f"{len(pending)} displacements were never added")
        ctx.require(len(model.cart_basis_vectors) == 3 * w.c.n, "incomplete",
                    f"{len(model.cart_basis_vectors)} of {3 * w.c.n} degrees of freedom after all were added")
        return model

    def motion(self, kind):
        """Attempt to read the phonons or the trajectory, once they are complete they are kept."""
        ctx, sc = self.ctx, self.sc
        if kind not in self.motions:
            path = ctx.path(f"{kind}/out.{sc[kind]}")
            if kind == "phonon":
                out, fired = self.call("read phonons", generic.read_phonons, path, sc[kind])
            elif sc[kind] == "xdatcar":
                out, fired = self.call("read trajectory", vio.xdatcar.read_trajectory, path, 1.5)
            else:
                out, fired = self.call("read trajectory", generic.read_trajectory, path, sc[kind])
            if not out.ok:
                ctx.nontrivial = True
                ctx.probe("too-early" if not fired else "disk-failure")
                self.judge(kind, out, fired)
            elif kind == "phonon" or len(out.value) >= sc["steps"]:
                self.motions[kind] = out.value
        return self.motions.get(kind)

    def peek(self, model):
        """Preliminary spectra of the degrees of freedom known so far."""
        T = np.zeros_like(self.world.T)
        for b in model.cart_basis_vectors:
            T += np.einsum("ai,jk->aijk", b, np.einsum("ai,aijk->jk", b, self.world.T))
        what = f"({self.sc['kind']} model with {len(model.cart_basis_vectors)} of {3 * self.world.c.n} directions, {self.sc['crystal']})"
        for kind in ("phonon", "md"):
            m = self.motion(kind)
            if m is not None:
                self.ctx.probe("preliminary")
                self.compare(kind, m.get_raman_spectrum, model, self.true_phonon(T) if kind == "phonon" else self.true_md(T), what)

    def spectra(self, model):
        ctx, sc = self.ctx, self.sc
        for kind in ("phonon", "md"):
            for _ in range(100000):
                quiet = self.cluster.quiet()
                calls = self.notes["calls"]
                if self.motion(kind) is not None:
                    break
                ctx.require(not quiet or any(e["at"] == calls for e in sc["events"]), "no-progress",
                            f"the {kind} output cannot be read although all jobs have finished")
                self.cluster.tick(sc["patience"])
        phonons, md = self.motions["phonon"], self.motions["md"]
        if self.restarted:
            return
        c = self.world.c
        masks = [()]
        if len(set(c.symbols())) > 1:
            masks.append((c.symbols()[0],))
        masks.append((int(self.rng.integers(c.n)),))
        for hide in masks:
            atoms = [a for a in range(c.n) if a in hide or c.symbols()[a] in hide]
            m = model
            if hide:
                if sc["kind"] == "art":
                    idx = ctx.call("indexes", model.get_dof_indexes, list(hide))
                    ctx.require(idx.ok, "masking", f"get_dof_indexes({hide}) {idx.describe()}")
                    idx = idx.value
                else:
                    idx = [j for j, b in enumerate(model.cart_basis_vectors) if any(np.abs(b[a]).max() > 1e-4 for a in atoms)]
                if sc["inplace"]:
                    flags = np.zeros(len(model.cart_basis_vectors), dtype=bool)
                    flags[idx] = True
                    model.mask = flags
                else:
                    m = ctx.call("mask", model.get_masked_model, idx).value
            T = self.world.T.copy()
            T[atoms] = 0
            what = f"({sc['kind']} model, {sc['crystal']}, without {hide})"
            self.compare("phonon", phonons.get_raman_spectrum, m, self.true_phonon(T), what)
            self.compare("molecular-dynamics", md.get_raman_spectrum, m, self.true_md(T), what)
            # modes of large cells move every atom only a little: everything scales
            scale = float(10 ** rng_of("scale", sc["seed"]).uniform(-4, 0))
            weak = Phonons(phonons.ref_positions, phonons.wavenumbers, phonons.displacements * scale)
            waves, bare = self.true_phonon(T)
            self.compare("phonon", weak.get_raman_spectrum, m, (waves, bare * scale ** 2), f"{what}, scaled by {scale:.3g}",
                         scale ** 2)
            model.unmask()

    def compare(self, name, fn, model, truth, what, scale=1.0):
        ctx, sc = self.ctx, self.sc
        laser, length, bose, kelvin = sc["measure"]
        spectrum = ctx.call(name, fn, model)
        ctx.require(spectrum.ok, "spectrum", f"{name} spectrum {what} {spectrum.describe()}")
        out = ctx.call("measure", spectrum.value.measure, "polycrystalline", laser, length, bose, kelvin)
        ctx.require(out.ok, "spectrum", f"measuring the {name} spectrum {what} {out.describe()}")
        w, bare = truth
        factor = np.ones(len(w))
        if laser:
            factor = factor * ((w - 1e7 / length) / 1e4) ** 4 / w
        if bose:
            factor = factor / (1 - np.exp(-w * 29979245800.0 * 4.1357e-15 / (8.617333262e-5 * kelvin)))
        gw, gi = out.value
        ctx.require(same(gw, w, 1e-6, 1e-6), "spectrum", f"wavenumbers of the {name} spectrum {what}: {diff(gw, w)}")
        tol = (np.abs(factor) * max(np.max(bare, initial=0.0), 1e-3 * np.abs(self.world.T).max() ** 2 * scale, 1e-3 * scale)) * 2e-3 + 1e-9 * scale
        bad = ~(np.abs(gi - bare * factor) <= tol + 1e-4 * np.abs(bare * factor))
        ctx.require(np.shape(gi) == np.shape(bare) and not bad.any(), "spectrum",
                    f"intensities of the {name} spectrum {what}: {diff(gi, bare * factor)}")
        ctx.probe(name + "-spectra")
        if len(w):
            grid = np.linspace(0, 1200, 40)
            smooth = ctx.call("convolve", convolve_spectrum, gw, gi, "lorentzian", 12.0, grid)
            want = (gi[None] / np.pi * 6 / ((gw[None] - grid[:, None]) ** 2 + 36)).sum(1)
            ctx.require(smooth.ok and same(smooth.value[1], want, 1e-9, 1e-9), "spectrum", f"convolved {name} spectrum {what}")

    def true_phonon(self, T):
        facts = self.cluster.output(f"phonon/out.{self.sc['phonon']}")[1]
        u = facts["displacements"] @ self.world.c.L
        R = 2 * np.einsum("mai,aijk->mjk", u, T)
        a2 = (np.trace(R, axis1=1, axis2=2) / 3) ** 2
        g2 = ((R[:, 0, 0] - R[:, 1, 1]) ** 2 + (R[:, 1, 1] - R[:, 2, 2]) ** 2 + (R[:, 2, 2] - R[:, 0, 0]) ** 2) / 2 \
            + 3 * (R[:, 0, 1] ** 2 + R[:, 1, 2] ** 2 + R[:, 0, 2] ** 2)
        return facts["wavenumbers"], 45 * a2 + 7 * g2

    def true_md(self, T):
        facts = self.cluster.output(f"md/out.{self.sc['md']}")[1]
        a = np.einsum("sai,aijk->sjk", self.world.c.cart_of(facts["positions_ts"]), T)
        v = np.diff(a, axis=0)

        def power(x):
            n = len(x)
            auto = np.array([np.dot(x[:n - k], x[k:]) for k in range(n)])
            m = np.arange((n + 1) // 2)
            return (auto[None] * np.cos(2 * np.pi * m[:, None] * np.arange(n)[None] / n)).sum(1)

        n = len(v)
        w = np.arange((n + 1) // 2) / (n * 1.5) * 33.35640951981521 * 1e3
        a2 = power(np.trace(v, axis1=1, axis2=2)) / 9
        g2 = sum(power(v[:, i, i] - v[:, j, j]) for i, j in ((0, 1), (1, 2), (2, 0))) / 2 \
            + 3 * sum(power(v[:, i, j]) for i, j in ((0, 1), (1, 2), (0, 2)))
        return w[1:], (45 * a2 + 7 * g2)[1:]


def workflow(ctx, sc, notes):
    world = World(sc["crystal"], sc["seed"])
    if "POSCAR" not in files(ctx.tree()):
        ctx.put("POSCAR", vasp.poscar(world.c, style={"mode": "direct", "word": "Direct"})[0])
    if sc["trouble"]:
        ctx.probe("troubled-clusters")
    for _ in range(100):
        driver = Driver(ctx, sc, world, notes)
        driver.prepare()
        model = None if driver.restarted else driver.collect()
        if model is not None and not driver.restarted:
            driver.spectra(model)
        if not driver.restarted:
            return
        ctx.probe("driver-restarts")
        ctx.nontrivial = True
        notes["now"] = driver.cluster.now
    ctx.fail("no-progress", "the workflow never completes")


def run(ctx, sc):
    workflow(ctx, sc, ctx.notes)


def after_crash(ctx, sc, notes):
    ctx.nontrivial = True
    ctx.probe("driver-killed")
    notes["lives"] = notes.get("lives", 0) + 1
    workflow(ctx, sc, notes)
