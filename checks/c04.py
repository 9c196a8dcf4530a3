"""C04: rejected write requests leave storage untouched."""

from .common import *  # noqa: F403
from ramannoodle.structure import write_ast_displaced_structures, write_displaced_structures

ID = "C04"
RUNS = {"quick": 2500, "thorough": 50000}
RULE = ("each evaluation is one history of 2-8 write requests over a shared disk, most of them "
        "invalid in one seeded way (argument, position of the invalid element, entry point, "
        "overwrite flag, existing target), checked after every request against a model of the "
        "disk and against the storage calls made; non-trivial: a request was rejected; distinct: "
        "different event log")
REAL = REAL_IO
STUBS = STUB_IO

SINGLE = ["lattice-shape", "lattice-type", "numbers-unknown", "numbers-ungrouped", "numbers-type",
          "numbers-length", "pos-shape", "pos-high", "pos-low", "pos-type", "path", "format"]
BATCH = ["amp-shape", "amp-type", "disp-shape", "disp-type", "count-less", "count-more",
         "count-empty", "path-item", "format", "atom-index"]


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 8)):
        kind = rng.choice(["s", "t", "t", "d", "d", "a", "a"])
        single = kind in "st"
        op = {"kind": kind, "spec": structure_spec(rng, max_atoms=20, special=0.0),
              "via": rng.choice(["poscar", "generic", "generic-x"]) if kind == "s"
              else rng.choice(["xdatcar", "generic"]),
              "bad": rng.choice(SINGLE if single else BATCH) if rng.random() < 0.85 else None,
              "variant": rng.randrange(1 << 20), "overwrite": rng.random() < 0.6,
              "files": sorted(rng.sample(range(8), rng.randint(1, 5))),
              "configs": rng.randint(1, 12)}
        if single:
            op["files"] = op["files"][:1]
        if op["spec"]["n"] < 3:
            op["spec"]["n"] = 3
        if op["spec"]["lattice"] in ("large",):
            op["spec"]["lattice"] = "mono"
        ops.append(op)
    return {"ops": ops, "exist": sorted(rng.sample(range(8), rng.randint(0, 8))),
            "delivery": delivery(rng, 0.3)}


def bad_lattice(L, v):
    return [L[:, :2], L[:2], L[0], np.vstack([L, L[:1]]), L[None], np.zeros((0, 3)),
            np.float64(3.0), L.flatten()][v % 8]


def bad_type(x, v):
    return [x.tolist(), None, "abc", 5, {"a": 1}, tuple(map(tuple, np.atleast_2d(x.reshape(-1, 3))))][v % 6]


def spoil(op, L, Z, X):
    """Arguments with one defect."""
    v = op["variant"]
    r = rng_of("spoil", v)
    bad = op["bad"]
    L, Z, X = L.copy(), list(Z), X.copy()
    n = len(Z)
    if bad == "lattice-shape":
        L = bad_lattice(L, v)
    elif bad == "lattice-type":
        L = bad_type(L, v)
    elif bad == "numbers-unknown":
        Z[int(r.integers(n))] = [0, -1, 119, 1000, "Ti", None][v % 6]
    elif bad == "numbers-ungrouped":
        a, b = (Z[0], 1 if Z[0] != 1 else 2)
        Z = [a] * (n - 2) + [b, a]
    elif bad == "numbers-type":
        Z = [np.array(Z), tuple(Z), "".join(map(str, Z)), None, 7][v % 5]
    elif bad == "numbers-length":
        Z = [Z + [Z[-1]], Z[:-1], []][v % 3]
    elif bad == "pos-shape":
        X = [X[..., :2], X[..., :-1, :], np.concatenate([X, X[..., :1, :]], axis=-2), X[None], X[0],
             X.flatten(), X[..., None]][v % 7]
    elif bad in ("pos-high", "pos-low"):
        value = [1.0000000001, 1.5, 2.0, 1e9, np.inf] if bad == "pos-high" else [-1e-9, -0.5, -1.0, -1e9, -np.inf]
        where = tuple(int(r.integers(s)) for s in X.shape)
        if X.ndim == 3 and v % 2:
            where = (X.shape[0] - 1,) + where[1:]
        X[where] = value[v % 5]
    elif bad == "pos-type":
        X = bad_type(X, v)
    return L, Z, X


def run(ctx, sc):
    names = [f"run{k}/f{k}.vasp" if k % 2 else f"f{k}.vasp" for k in range(8)]
    disk = {}
    for k, name in enumerate(names):
        os.makedirs(os.path.dirname(ctx.path(name)), exist_ok=True)
        if k in sc["exist"]:
            disk[name] = f"existing {k}\n".encode() * 400
            ctx.put(name, disk[name])
    ctx.arm([], sc["delivery"])
    for k, op in enumerate(sc["ops"]):
        ctx.mutations = []
        expected = {}
        what = f"request {k} ({op['kind']}, {op['bad'] or 'valid'}, overwrite={op['overwrite']})"
        if op["kind"] in "st":
            out = single(ctx, op, names, expected)
        else:
            out = batch(ctx, op, names, expected)
        clash = not op["overwrite"] and any(names[f] in disk for f in op["files"])
        clean(ctx, what)
        if op["bad"]:
            ctx.nontrivial = True
            ctx.probe("rejected:" + op["bad"])
            ctx.require(not out.ok, "accepted", f"{what} returned although its arguments are invalid")
            ctx.require(not ctx.mutations, "touched", f"{what} {out.describe()}, but storage was changed: {ctx.mutations[:4]}")
        elif clash:
            ctx.require(isinstance(out.exc, FileExistsError), "wrong-error", f"{what} {out.describe()}")
            for name, ok in expected.items():      # files before the first existing one
                data = ctx.get(name)
                if name not in disk and data is not None:
                    ctx.require(ok(data), "content", f"{what}: {name} is incomplete")
                    disk[name] = data
        else:
            ctx.require(out.ok, "spurious", f"{what} {out.describe()}")
            for name, ok in expected.items():
                data = ctx.get(name)
                ctx.require(ok(data), "content", f"{what}: {name} does not hold what was written")
                disk[name] = data
            ctx.probe("accepted")
        now = files(ctx.tree())
        for name in sorted(set(now) | set(disk)):
            ctx.require(now.get(name) == disk.get(name), "touched",
                        f"{what} {out.describe()}: {name} "
                        f"{'was created' if name not in disk else 'was removed' if name not in now else 'was altered'}")
    ctx.disarm()


BAD_PATHS = [5, None, 3.5, b"bytes", ["x"], object()]


def single(ctx, op, names, expected):
    name = names[op["files"][0]]
    path = ctx.path(name)
    if op["kind"] == "s":
        L, Z, X = structure(op["spec"])
    else:
        L, Z, X = trajectory_of(op["spec"], op["configs"])
    good = (L, Z, X)
    L, Z, X = spoil(op, L, Z, X)
    fmt = None
    if op["bad"] == "path":
        path = BAD_PATHS[op["variant"] % len(BAD_PATHS)]
    if op["bad"] == "format":
        fmt = ["outcar", "vasprun.xml", "", "POSCAR", None, 3, ["poscar"],
               "xdatcar " if op["kind"] == "s" else "poscar"][op["variant"] % 8]
    if op["kind"] == "s":
        expected[name] = lambda d: structure_is(d, *good)
        if op["bad"] == "format":
            return ctx.call("write", generic.write_structure, L, Z, X, path, fmt, op["overwrite"])
        return ctx.call("write", write_structure, op["via"], L, Z, X, path, op["overwrite"])
    expected[name] = lambda d: trajectory_is(d, *good)
    if op["bad"] == "format":
        return ctx.call("write", generic.write_trajectory, L, Z, X, path, fmt, op["overwrite"])
    return ctx.call("write", write_trajectory, op["via"], L, Z, X, path, op["overwrite"])


def batch(ctx, op, names, expected):
    L, Z, X = structure(op["spec"])
    v = op["variant"]
    r = rng_of("batch", v)
    refs = ReferenceStructure(list(Z), L, X)
    m = len(op["files"])
    amplitudes = r.uniform(-0.3, 0.3, size=m)
    direction = r.normal(size=(len(Z), 3))
    index = int(r.integers(len(Z)))
    if op["kind"] == "a":
        row = direction[index].copy()
        direction[:] = 0
        direction[index] = row
    unit = direction / np.linalg.norm(direction)
    paths = [ctx.path(names[f]) for f in op["files"]]
    if v % 3 == 0:
        paths = [Path(p) for p in paths]
    fmt = "poscar"
    for f, a in zip(op["files"], amplitudes):
        target = X + a * unit @ np.linalg.inv(L)
        expected[names[f]] = lambda d, target=target: displaced_is(d, L, Z, target)
    bad = op["bad"]
    given = direction if op["kind"] == "d" else direction[index]
    if bad == "amp-shape":
        amplitudes = [amplitudes[:, None], amplitudes[None], np.float64(0.1), np.zeros((m, 2))][v % 4]
    elif bad == "amp-type":
        amplitudes = [amplitudes.tolist(), None, "0.1", 0.1, tuple(amplitudes)][v % 5]
    elif bad == "disp-shape":
        if op["kind"] == "d":
            given = [direction[:, :2], direction[:-1], np.vstack([direction, direction[:1]]),
                     direction[None], direction.flatten()][v % 5]
        else:
            given = [np.ones(2), np.ones(4), np.ones((2, 3))][v % 3]
    elif bad == "disp-type":
        given = [given.tolist(), None, "xyz", {}][v % 4]
    elif bad == "count-less":
        paths = paths[:-1] if m > 1 else [paths[0], paths[0]]
    elif bad == "count-more":
        paths = paths + [ctx.path("one-more.vasp")]
    elif bad == "count-empty":
        paths = []
    elif bad == "path-item":
        paths[v % len(paths)] = BAD_PATHS[v % len(BAD_PATHS)]
    elif bad == "format":
        fmt = ["outcar", "vasprun.xml", "", "POSCAR", None, 3, ["poscar"]][v % 7]
    elif bad == "atom-index":
        if op["kind"] == "a":
            index = [len(Z), -len(Z) - 1, 10 ** 6, "a"][v % 4]
        else:
            paths = paths + [None]
    if op["kind"] == "d":
        return ctx.call("batch", write_displaced_structures, refs, given, amplitudes, paths, fmt,
                        op["overwrite"])
    return ctx.call("batch", write_ast_displaced_structures, refs, index, given, amplitudes, paths,
                    fmt, op["overwrite"])


def displaced_is(data, L, Z, target):
    if data is None:
        return False
    try:
        gL, gZ, gX = parse_poscar(data)
    except Malformed:
        return False
    return (gZ == list(Z) and same(gL, L, **TOL) and same_mod1(gX, target, 1e-13)
            and bool(np.all(gX >= 0) and np.all(gX <= 1)))
