"""C01: what a returned write put on disk is exactly what was to be written."""

from .common import *  # noqa: F403

ID = "C01"
RUNS = {"quick": 900, "thorough": 14000}
RULE = ("each evaluation is one simulated history of 1-4 writes (structures, trajectories; "
        "some over existing or the same files) with a seeded byte-delivery schedule, each "
        "followed by reads through every reader and an independent parser; non-trivial: at "
        "least one write returned and was read back; distinct: different event log")
REAL = REAL_IO
STUBS = STUB_IO


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        big = rng.random() < 0.12
        spec = structure_spec(rng, max_atoms=rng.choice([300, 700, 999]) if big else 40)
        if big and rng.random() < 0.5:
            spec["n"] = rng.choice([255, 256, 257, 258, 300, 512, 700])
        kind = rng.choice(["s", "t"])
        op = {"kind": kind, "spec": spec, "label": rng.randrange(len(LABELS)),
              "name": rng.choice(NAMES), "spell": rng.choice(SPELL),
              "prefill": rng.choice([None, None, 0, 10, 5000, 90000]),
              "overwrite": True}
        if op["prefill"] is None and rng.random() < 0.5:
            op["overwrite"] = False
        if kind == "s":
            op["via"] = rng.choice(["poscar", "generic", "generic-x"])
        else:
            op["via"] = rng.choice(["xdatcar", "generic"])
            limit = max(1, min(400, 1500 // spec["n"]))
            op["configs"] = rng.choice([1, 2, 3, rng.randint(1, min(30, limit)),
                                        rng.randint(1, limit)])
            if rng.random() < 0.04:
                spec["n"] = rng.choice([1, 1, 2])
                op["configs"] = rng.choice([999, 1000, 1001, 1024, 1025, 1300])
        ops.append(op)
    return {"ops": ops, "delivery": delivery(rng)}


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        def alt(**kw):
            return {**sc, "ops": sc["ops"][:i] + [{**op, **kw}] + sc["ops"][i + 1:]}
        n = op["spec"]["n"]
        for m in (1, 2, n // 2, n - 1):
            if 0 < m < n:
                yield alt(spec={**op["spec"], "n": m})
        k = op.get("configs", 1)
        for m in (1, 2, k // 2, k - 1):
            if 0 < m < k:
                yield alt(configs=m)
        if op["label"]:
            yield alt(label=0)
        if op["prefill"] is not None:
            yield alt(prefill=None)
        if op["name"] != "POSCAR":
            yield alt(name="POSCAR")


def verify(ctx, op, path, expected, what):
    """Every reader and the independent parser see the expected content."""
    L, Z, X = expected
    data = ctx.get(op["name"])
    if op["kind"] == "s":
        check_structure_bytes(ctx, data, L, Z, X, what)
        first = X
    else:
        check_trajectory_bytes(ctx, data, L, Z, X, what)
        first = X[0]

    def read(label, fn, *args):
        out = ctx.call(label, fn, *args)
        ctx.require(out.ok, "unreadable", f"{what}: {label} {out.describe()}")
        return out.value

    got = read("poscar.read_positions", vio.poscar.read_positions, path)
    ctx.require(same(got, first, **TOL), "read-back", f"{what}: poscar.read_positions: {diff(got, first)}")
    got = read("generic.read_positions", generic.read_positions, path, "poscar")
    ctx.require(same(got, first, **TOL), "read-back", f"{what}: generic.read_positions: {diff(got, first)}")
    got = read("poscar.read_structure", vio.poscar.read_structure, path)
    ctx.require(same(got[0], L, **TOL) and list(got[1]) == list(Z) and same(got[2], first, **TOL),
                "read-back", f"{what}: poscar.read_structure differs")
    if op["kind"] == "t":
        got = read("xdatcar.read_positions_ts", vio.xdatcar.read_positions_ts, path)
        ctx.require(same(got, X, **TOL), "read-back", f"{what}: read_positions_ts: {diff(got, X)}")
        got = read("xdatcar.read_trajectory", vio.xdatcar.read_trajectory, path, 1.25)
        ctx.require(got.timestep == 1.25, "read-back", f"{what}: timestep {got.timestep}")
        ctx.require(same_mod1(got.positions_ts, X, 1e-15), "read-back",
                    f"{what}: read_trajectory: {diff(got.positions_ts, X)}")
    if len(Z) <= 24:
        out = ctx.call("read_ref_structure", vio.poscar.read_ref_structure, path)
        if out.ok:
            ctx.require(same(out.value.lattice, L, **TOL) and list(out.value.atomic_numbers) == list(Z)
                        and same(out.value.positions, first, **TOL), "read-back",
                        f"{what}: read_ref_structure differs")
        else:
            ctx.require(isinstance(out.exc, SymmetryException), "unreadable",
                        f"{what}: read_ref_structure {out.describe()}")
    clean(ctx, what)
    return data


def run(ctx, sc):
    held = {}
    for k, op in enumerate(sc["ops"]):
        path = spell(ctx, op["name"], op["spell"])
        if op["prefill"] is not None and op["name"] not in held:
            ctx.put(op["name"], ("Direct 1 2 3\n" * 10000)[:op["prefill"]])
        overwrite = op["overwrite"] or op["name"] in held
        label = LABELS[op["label"]]
        if op["kind"] == "s":
            L, Z, X = structure(op["spec"])
            ctx.arm(delivery=capped(sc["delivery"], X.size * 22))
            copies = (L.copy(), list(Z), X.copy())
            out = ctx.call("write_structure", write_structure, op["via"], L, Z, X, path,
                           overwrite, label)
        else:
            L, Z, X = trajectory_of(op["spec"], op["configs"])
            ctx.arm(delivery=capped(sc["delivery"], X.size * 22))
            copies = (L.copy(), list(Z), X.copy())
            out = ctx.call("write_trajectory", write_trajectory, op["via"], L, Z, X, path,
                           overwrite, label)
        what = f"write {k} ({op['via']}, {len(Z)} atoms{', %d configurations' % len(X) if op['kind'] == 't' else ''})"
        ctx.require(out.ok, "write-raised", f"{what} {out.describe()}")
        ctx.require(same(L, copies[0]) and Z == copies[1] and same(X, copies[2]),
                    "input-changed", f"{what} changed its inputs")
        clean(ctx, what)
        held[op["name"]] = verify(ctx, op, path, (L, Z, X), what)
        ctx.probe("writes")
        ctx.nontrivial = True
        for name, data in held.items():
            ctx.require(ctx.get(name) == data, "other-file",
                        f"{what} changed {name}, written earlier")
    ctx.disarm()
    extra = [n for n in ctx.tree() if not n.endswith("/") and n not in held]
    ctx.require(not extra, "stray-file", f"files nobody asked for: {extra}")
