"""C07: a failing read raises the storage error; readers leave nothing behind."""

from .calcs import *  # noqa: F403
from .calcs import REAL_IO, STUB_IO

ID = "C07"
RUNS = {"quick": 2200, "thorough": 40000}
RULE = ("each evaluation is one history of reads of generated calculation files with storage faults "
        "(errors at any byte or call of open/read/close, missing files, directories, "
        "dangling links, files removed and replaced), each followed by a repetition on working storage; non-trivial: a hard fault "
        "was hit; distinct: different event log")
REAL = REAL_IO + ["ramannoodle.dynamics", "ramannoodle.dataset.torch"]
STUBS = STUB_IO + ["the ab-initio code (a generator that prints files in its format from a known crystal)"]


def gen_fault(rng):
    roll = rng.random()
    if roll < 0.25:
        return {"op": "open", "at": rng.choice([0, 0, 0, 1, 2, 3]), "err": rng.choice(OPEN_R_ERRNO)}
    if roll < 0.75:
        return {"op": "read", "pos": position(rng), "err": rng.choice(READ_ERRNO)}
    if roll < 0.9:
        return {"op": "read", "at": rng.choice([0, 0, 1, 1, 2, 3, 5, 9]), "err": rng.choice(READ_ERRNO)}
    return {"op": rng.choice(["close", "stat", "seek", "any"]), "at": rng.choice([0, 0, 1, 2]),
            "err": rng.choice(READ_ERRNO)}


def gen(rng, tier):
    f = gen_file(rng, big=rng.random() < 0.05)
    ops = []
    for _ in range(rng.randint(2, 8)):
        op = {"reader": rng.random(), "delivery": delivery(rng, 0.5)}
        roll = rng.random()
        if roll < 0.7:
            op["faults"] = [gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        elif roll < 0.8:
            op["state"] = rng.choice(["removed", "replaced", "replaced"])
            op["seed"] = rng.randrange(1 << 30)
        elif roll < 0.95:
            op["state"] = rng.choice(["missing", "folder", "dangling", "loop", "no-folder", "not-a-folder"])
        ops.append(op)
    return {"file": f, "ops": ops, "pathkind": rng.choice(SPELL)}


def shrink(sc):
    for g in shrink_file(sc["file"]):
        yield {**sc, "file": g}


EXPECT = {"missing": FileNotFoundError, "folder": IsADirectoryError, "dangling": FileNotFoundError,
          "loop": OSError, "no-folder": FileNotFoundError, "not-a-folder": NotADirectoryError}


def broken_path(ctx, sc, state, k):
    base = f"bad{k}"
    was, ctx.local.bypass = ctx.local.bypass, True
    try:
        os.makedirs(ctx.path(base))
        if state == "folder":
            os.makedirs(ctx.path(base, "x"))
        elif state == "dangling":
            os.symlink("nowhere", ctx.path(base, "x"))
        elif state == "loop":
            os.symlink("x", ctx.path(base, "x"))
        elif state == "not-a-folder":
            with open(ctx.path(base, "y"), "w"):
                pass
    finally:
        ctx.local.bypass = was
    name = {"no-folder": f"{base}/z/x", "not-a-folder": f"{base}/y/x"}.get(state, f"{base}/x")
    full = ctx.path(name)
    return {"path": Path(full), "rel": name, "relpath": Path(name)}.get(sc["pathkind"], full)


def run(ctx, sc):
    f = sc["file"]
    data, facts = build(f)
    name = f"calc/{f['fmt'].upper()}"
    ctx.put(name, data)
    path = spell(ctx, name, sc["pathkind"])
    every = readers(f["fmt"], facts)
    for k, op in enumerate(sc["ops"]):
        label, fn, cmp, possible = every[int(op["reader"] * len(every))]
        what = f"op {k}: {f['fmt']} {label}"
        if op.get("state") == "removed":
            was, ctx.local.bypass = ctx.local.bypass, True
            os.unlink(ctx.path(name))
            ctx.local.bypass = was
            before = ctx.tree()
            out = ctx.call(what, fn, path)
            ctx.require(isinstance(out.exc, FileNotFoundError), "wrong-error", f"{what} of a removed file {out.describe()}")
            ctx.require(ctx.tree() == before, "modified", f"{what} of a removed file changed files")
            ctx.probe("removed")
            ctx.nontrivial = True
        if op.get("state") in ("removed", "replaced"):
            # another calculation writes the file
            f = {**f, "seed": op["seed"]}
            data, facts = build(f)
            ctx.put(name, data)
            every = readers(f["fmt"], facts)
            label, fn, cmp, possible = every[int(op["reader"] * len(every))]
            ctx.probe("replaced")
            before = ctx.tree()
        elif "state" in op:
            bad = broken_path(ctx, sc, op["state"], k)
            before = ctx.tree()
            out = ctx.call(what, fn, bad)
            ctx.require(not out.ok, "silent", f"{what} of a path that is {op['state']} returned")
            ctx.require(isinstance(out.exc, EXPECT[op["state"]]), "wrong-error",
                        f"{what} of a path that is {op['state']} {out.describe()}")
            ctx.probe("path-states")
            ctx.nontrivial = True
        else:
            before = ctx.tree()
            ctx.arm([resolve_fault(g, len(data)) for g in op.get("faults", [])],
                    capped(op["delivery"], len(data)))
            mark = len(ctx.fired)
            out = ctx.call(what, fn, path)
            errors = fired_errors(ctx)
            soft = all(x.split("@")[1] in ("stat", "access", "seek", "close") for x in ctx.fired[mark:] if "EINTR" not in x)
            ctx.disarm()
            if errors and soft and out.ok and possible:
                # the data was there all the same
                problem = cmp(out.value)
                ctx.require(problem is None, "wrong-data", f"{what} with {errors}: {problem}")
            elif errors and soft and isinstance(out.exc, OSError):
                ctx.probe("errors-raised")
            elif errors:
                ctx.nontrivial = True
                if not out.ok:
                    # what the file does not hold may be noticed before the storage fails
                    fine = any(is_os_error(out.exc, e) for e in errors) or (
                        not possible and isinstance(out.exc, InvalidFileException))
                    ctx.require(fine, "wrong-error", f"{what} with storage errors {errors} {out.describe()}")
                    ctx.probe("errors-raised")
                else:
                    ctx.require(False, "silent", f"{what} returned although storage failed with {errors}")
            elif possible:
                ctx.require(out.ok, "unreadable", f"{what} {out.describe()} without any hard fault")
                problem = cmp(out.value)
                ctx.require(problem is None, "wrong-data", f"{what}: {problem}")
        clean(ctx, what)
        ctx.require(not ctx.mutations, "modified", f"{what} changed storage: {ctx.mutations[:3]}")
        ctx.require(ctx.tree() == before, "modified", f"{what} changed files")
        again = ctx.call("again " + what, fn, path)
        clean(ctx, "again " + what)
        if possible:
            ctx.require(again.ok, "not-repeatable", f"{what}: repetition on working storage {again.describe()}")
            problem = cmp(again.value)
            ctx.require(problem is None, "not-repeatable", f"{what}: repetition: {problem}")
        else:
            ctx.require(isinstance(again.exc, InvalidFileException), "invented",
                        f"{what}: repetition {again.describe()}")
