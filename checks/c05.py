"""C05: batches of displaced structures are complete, ordered and failure-atomic."""

from .common import *  # noqa: F403
from .c04 import displaced_is
from ramannoodle.structure import (get_ast_displaced_positions, get_displaced_positions, write_ast_displaced_structures,
                                   write_displaced_structures)

ID = "C05"
RUNS = {"quick": 1800, "thorough": 30000}
RULE = ("each evaluation is one history of 1-3 batches of 1-300 displaced structures over a shared "
        "disk with storage faults or a kill at a seeded file and byte, each file checked against an "
        "independent displacement formula, followed by a retry; non-trivial: more than one file or a "
        "fault; distinct: different event log")
REAL = REAL_IO
STUBS = STUB_IO + ["process death (_exit at a simulated point)"]


def gen(rng, tier):
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.5:
            c = {"proto": rng.choice(sorted(vasp.PROTOS))}
        else:
            c = {"n": rng.randint(1, 12), "kinds": rng.randint(1, 3),
                 "lattice": rng.choice([x for x in LATTICES if x != "large"]), "seed": rng.randrange(1 << 30)}
        m = rng.choice([1, 2, 3, rng.randint(2, 12), rng.randint(2, 12), rng.randint(13, 60)])
        if rng.random() < 0.05:
            m = rng.choice([255, 256, 257, 258, 300])
        op = {"crystal": c, "m": m, "kind": rng.choice("da"), "seed": rng.randrange(1 << 30),
              "size": rng.choice([0.01, 0.2, 0.2, 3.0, 30.0]), "norm": rng.choice([1e-3, 1.0, 1.0, 250.0]),
              "length": rng.choice([None, None, None, 1.0, 1 + 8e-4, 1 - 8e-4, 1 + 9e-6, 1 - 3e-7, 0.01]),
              "format": rng.choice(["poscar", "poscar", "xdatcar"]), "pathkind": rng.choice(SPELL),
              "existing": rng.choice(["none", "none", "all", "some"]),
              "single": m == 1 and rng.random() < 0.5, "axis": rng.random() < 0.3,
              "boundary": rng.random() < 0.3, "faults": [], "delivery": delivery(rng, 0.3)}
        if rng.random() < 0.6:
            f = {"at_file": rng.randrange(m), "kind": rng.choice(["open", "write", "close", "crash", "crash-write"]),
                 "pos": position(rng), "sticky": rng.random() < 0.6}
            f["err"] = rng.choice({"open": OPEN_W_ERRNO, "close": CLOSE_ERRNO}.get(f["kind"], WRITE_ERRNO))
            op["faults"].append(f)
        ops.append(op)
    return {"ops": ops}


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        def alt(**kw):
            return {**sc, "ops": sc["ops"][:i] + [{**op, **kw}] + sc["ops"][i + 1:]}
        for m in (1, 2, op["m"] // 2, op["m"] - 1):
            if 0 < m < op["m"]:
                yield alt(m=m, faults=[{**f, "at_file": min(f["at_file"], m - 1)} for f in op["faults"]])
        if op["faults"]:
            yield alt(faults=[])
        if op["delivery"]:
            yield alt(delivery={})
        if op["crystal"] != {"proto": "p1"}:
            yield alt(crystal={"proto": "p1"})


class Batch:
    def __init__(self, k, op):
        self.op = op
        c = self.c = vasp.crystal(op["crystal"])
        r = rng_of("disp", op["seed"])
        if op["boundary"] and "seed" in op["crystal"]:
            c.X[r.uniform(size=c.n) < 0.5, 0] = 0.0
        self.amplitudes = r.uniform(-op["size"], op["size"], size=op["m"])
        if op["m"] > 2:
            self.amplitudes[int(r.integers(op["m"]))] = 0.0
            self.amplitudes[int(r.integers(op["m"]))] = self.amplitudes[0]
        direction = r.normal(size=(c.n, 3))
        if op["axis"]:
            direction = np.zeros((c.n, 3))
            direction[int(r.integers(c.n)), int(r.integers(3))] = -1.0
        self.index = int(r.integers(c.n))
        if op["kind"] == "a":
            row = direction[self.index] if np.any(direction[self.index]) else np.array([0, 0, 1.0])
            direction = np.zeros((c.n, 3))
            direction[self.index] = row
        self.direction = direction * op["norm"]
        unit = direction / np.sqrt((direction ** 2).sum())
        if op["length"]:
            self.direction = unit * op["length"]
        self.targets = [c.X + a * unit @ c.inv for a in self.amplitudes]
        order = r.permutation(op["m"])
        self.names = [f"batch{k}/{'x' * int(j % 3)}{int(j)}.vasp" for j in order]
        self.old = {}
        for j, n in enumerate(self.names):
            if op["existing"] == "all" or (op["existing"] == "some" and r.uniform() < 0.5):
                self.old[n] = f"old {j}\n".encode() * int(r.integers(1, 500))
        self.size = 250 + 63 * c.n

    def faults(self):
        out = []
        for f in self.op["faults"]:
            name = self.names[f["at_file"]]
            base = {"path": name}
            if f["kind"] == "open":
                out.append({**base, "op": "open", "at": 0, "err": f["err"]})
            elif f["kind"] == "close":
                out.append({**base, "op": "close", "at": 0, "err": f["err"]})
            elif f["kind"] == "write":
                out.append({**base, "op": "write", "bytes": resolve(f["pos"], self.size), "err": f["err"],
                            "sticky": f["sticky"]})
            elif f["kind"] == "crash":
                out.append({**base, "op": "any", "at": int(f["pos"].get("frac", 0.5) * 3), "crash": True, "arg": 40})
            else:
                out.append({**base, "op": "write", "bytes": resolve(f["pos"], self.size), "crash": True})
        return out

    def call(self, ctx, overwrite):
        paths = [spell(ctx, n, self.op["pathkind"]) for n in self.names]
        if self.op["single"]:
            paths = paths[0]
        refs = ref(self.c)
        if self.op["kind"] == "d":
            return ctx.call("batch", write_displaced_structures, refs, self.direction, self.amplitudes,
                            paths, self.op["format"], overwrite)
        return ctx.call("batch", write_ast_displaced_structures, refs, self.index,
                        self.direction[self.index], self.amplitudes, paths, self.op["format"], overwrite)

    def ok(self, j, data):
        return displaced_is(data, self.c.L, self.c.Z, self.targets[j])

    def complete(self, ctx, what):
        for j, n in enumerate(self.names):
            data = ctx.get(n)
            ctx.require(data is not None, "incomplete", f"{what}: file {j} of {len(self.names)} is missing")
            if not self.ok(j, data):
                try:
                    gX = parse_poscar(data)[2]
                    d = gX - self.targets[j]
                    why = diff(d - np.round(d), np.zeros_like(d)) if gX.shape == d.shape else "shape"
                except Malformed as exc:
                    why = str(exc)
                raise Violation("content", f"{what}: file {j} of {len(self.names)} (amplitude "
                                           f"{self.amplitudes[j]:.4g}) is not the displaced structure: {why}")

    def partial(self, ctx, what):
        bad = []
        for j, n in enumerate(self.names):
            data = ctx.get(n)
            if data != self.old.get(n) and not self.ok(j, data):
                bad.append(j)
        ctx.require(len(bad) <= 1, "torn", f"{what}: files {bad} are neither complete nor as before")


def run(ctx, sc):
    batches = [Batch(k, op) for k, op in enumerate(sc["ops"])]
    disk = {"bystander": b"keep"}
    for b in batches:
        disk.update(b.old)
        for n in b.names:
            os.makedirs(os.path.dirname(ctx.path(n)), exist_ok=True)
    for n, data in disk.items():
        ctx.put(n, data)
    for k, b in enumerate(batches):
        op = b.op
        what = f"batch {k} ({'whole structure' if op['kind'] == 'd' else 'single atom'}, {op['m']} files)"
        refs = ref(b.c)
        if op["kind"] == "d":
            got = ctx.call("positions", get_displaced_positions, refs, b.direction, b.amplitudes)
        else:
            got = ctx.call("positions", get_ast_displaced_positions, refs, b.index, b.direction[b.index], b.amplitudes)
        ctx.require(got.ok and len(got.value) == op["m"], "positions", f"{what}: displaced positions {got.describe()}")
        for j, X in enumerate(got.value):
            ctx.require(same_mod1(X, b.targets[j], 1e-12), "positions", f"{what}: displaced positions {j} wrong")
        ctx.notes = {"at": k}
        ctx.arm(b.faults(), op["delivery"])
        out = b.call(ctx, True if b.old else [False, True][op["seed"] % 2])
        errors = fired_errors(ctx)
        ctx.disarm()
        clean(ctx, what)
        ctx.nontrivial = True
        ctx.probe("files", op["m"])
        if errors:
            ctx.require(not out.ok, "silent", f"{what} returned although the storage failed with {errors}")
            ctx.require(any(is_os_error(out.exc, e) for e in errors), "wrong-error",
                        f"{what}: storage failed with {errors}, but the call {out.describe()}")
            b.partial(ctx, what + " failed")
            out = b.call(ctx, True)
            ctx.require(out.ok, "retry", f"{what} repeated: {out.describe()}")
            ctx.probe("retries")
        ctx.require(out.ok, "spurious", f"{what} {out.describe()}")
        b.complete(ctx, what)
        for j, n in enumerate(b.names):
            disk[n] = ctx.get(n)
        now = files(ctx.tree())
        for n in sorted(set(now) | set(disk)):
            ctx.require(now.get(n) == disk.get(n), "other-file", f"{what} changed {n}")
        if op["seed"] % 3 == 0:
            j = op["seed"] % op["m"]
            out = ctx.call("read", generic.read_positions, ctx.path(b.names[j]), "poscar")
            ctx.require(out.ok and same_mod1(out.value, b.targets[j], 1e-12), "read-back", f"{what}: file {j}")


def after_crash(ctx, sc, notes):
    ctx.nontrivial = True
    k = notes["at"]
    for i, op in enumerate(sc["ops"]):
        b = Batch(i, op)
        if i < k:
            b.complete(ctx, f"batch {i}, which returned before the kill")
        elif i == k:
            b.partial(ctx, f"batch {i} killed")
        else:
            for n in b.names:
                ctx.require(ctx.get(n) == b.old.get(n), "other-file", f"batch {k}, killed, changed {n}")
    b = Batch(k, sc["ops"][k])
    out = b.call(ctx, True)
    ctx.require(out.ok, "retry", f"batch {k} repeated after the restart: {out.describe()}")
    b.complete(ctx, f"batch {k} repeated after the restart")
    clean(ctx, "repeat")
    ctx.probe("retries-after-restart")
